From 5e4017d3a2ad6fbc0853d05300de464a9dfdf043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 01/24] fix: honour client and vault mapping and report
 failures when merging snapshots

---
 client/src/sync.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index ee7bdee..8f292af 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -365,23 +365,23 @@ pub(crate) trait SyncSnapshots {
                         records.retain(|(rid, _)| select_records.contains(rid));
                     }
                     let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
-                    state.0.entry(vid).or_insert_with(Key::random);
+                    state.0.entry(mapped_vid).or_insert_with(Key::random);
                     let old_key = old_keystore
                         .get(&vid)
                         .ok_or_else(|| SnapshotError::Inner(format!("Missing Key for vault {:?}", vid)))?;
                     let new_key = state.0.get(&mapped_vid).expect("Key was inserted.");
-                    state.1.import_records(old_key, new_key, vid, records)?;
+                    state.1.import_records(old_key, new_key, mapped_vid, records)?;
                 }
                 Ok(())
             };
-            let f = match config.client_config.get(&cid) {
-                Some(c) => self.update_state(cid, |state| import_records(state, c)),
+            match config.client_config.get(&cid) {
+                Some(c) => self.update_state(mapped_cid, |state| import_records(state, c))?,
                 None => {
                     let config = SyncClientsConfig {
                         merge_policy: config.merge_policy,
                         ..Default::default()
                     };
-                    self.update_state(cid, |state| import_records(state, &config))
+                    self.update_state(mapped_cid, |state| import_records(state, &config))?
                 }
             };
         }
-- 
2.43.0


From 8b1b8dd45681cc28fd14594743a0ba2e0fb539bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 02/24] fix: compare records against the mapped vault and
 client when synchronising

---
 client/src/sync.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index 8f292af..b981a42 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -136,12 +136,16 @@ pub(crate) trait SyncClients<'a> {
                 }
             }
             let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
+            let select_records = config.select_records.get(&vid);
             if !db.contains_vault(&mapped_vid) {
-                let d = list.into_iter().map(|(rid, _)| rid).collect();
+                let d = list
+                    .into_iter()
+                    .map(|(rid, _)| rid)
+                    .filter(|rid| select_records.map_or(true, |select| select.contains(rid)))
+                    .collect();
                 diff.insert(vid, d);
                 continue;
             }
-            let select_records = config.select_records.get(&vid);
             let mut record_diff = Vec::new();
             for (rid, bid) in list {
                 if let Some(select_records) = select_records {
@@ -158,14 +162,14 @@ pub(crate) trait SyncClients<'a> {
                 }
                 match &key_provider {
                     KeyProvider::KeyStore(ks) => {
-                        if let Some(target_key) = ks.get_key(vid) {
+                        if let Some(target_key) = ks.get_key(mapped_vid) {
                             if db.get_blob_id(&target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
                         }
                     }
                     KeyProvider::KeyMap(map) => {
-                        if let Some(target_key) = map.get(&vid) {
+                        if let Some(target_key) = map.get(&mapped_vid) {
                             if db.get_blob_id(target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
@@ -310,7 +314,7 @@ pub(crate) trait SyncSnapshots {
                 };
                 Ok(Some(client_diff))
             };
-            if let Some(client_diff) = self.get_from_state(cid, f)? {
+            if let Some(client_diff) = self.get_from_state(mapped_cid, f)? {
                 diff.insert(cid, client_diff);
             }
         }
-- 
2.43.0


From 990f39ee219b6795769d0773aa3d4b581b8a79ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 03/24] fix: report an error instead of panicking when imported
 records cannot be decrypted

---
 engine/src/vault/view.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 3874686..5b1c49b 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -299,9 +299,7 @@ impl<P: BoxProvider> DbView<P> {
             self.init_vault(new_key, vid);
         }
         for (rid, record) in &mut records {
-            record
-                .update_meta(old_key, (*rid).into(), new_key, (*rid).into())
-                .unwrap();
+            record.update_meta(old_key, (*rid).into(), new_key, (*rid).into())?;
         }
         let vault = self.vaults.get_mut(&vid).expect("Vault was initiated.");
         vault.extend(new_key, records.into_iter().map(|(rid, r)| (rid.0, r)))
-- 
2.43.0


From dd67e694d4527f2a4550e47a223abf656e161839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 04/24] fix: skip revoked records when listing the entries of a
 vault

---
 engine/src/vault/view.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 5b1c49b..ae7f3f2 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -374,7 +374,8 @@ impl<P: BoxProvider> Vault<P> {
     /// List the [`RecordId`]s of the entries stored in this [`Vault`].
     fn list_entries(&self, key: &Key<P>) -> Result<Vec<(RecordId, BlobId)>, RecordError<P::Error>> {
         let mut buf = Vec::new();
-        for (&id, record) in self.entries.iter() {
+        // revoked records have no readable content and are not part of the listing
+        for (&id, record) in self.entries.iter().filter(|(_, record)| record.revoke.is_none()) {
             let blob_id = record.get_blob_id(key, id)?;
             buf.push((id.into(), blob_id))
         }
-- 
2.43.0


From c7527ca1d92764915435c55bc4e14c98d19b3000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 05/24] fix: roll back the products of AesKeyWrapDecrypt and
 ConcatSecret when a procedure chain fails

---
 client/src/procedures/primitives.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 9aa5386..ed47ac2 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -135,6 +135,10 @@ impl StrongholdProcedure {
             | StrongholdProcedure::X25519DiffieHellman(X25519DiffieHellman { shared_key: output, .. })
             | StrongholdProcedure::Hkdf(Hkdf { okm: output, .. })
             | StrongholdProcedure::ConcatKdf(ConcatKdf { output, .. })
+            | StrongholdProcedure::AesKeyWrapDecrypt(AesKeyWrapDecrypt { output, .. })
+            | StrongholdProcedure::ConcatSecret(ConcatSecret {
+                output_location: output, ..
+            })
             | StrongholdProcedure::Pbkdf2Hmac(Pbkdf2Hmac { output, .. }) => Some(output.clone()),
             _ => None,
         }
-- 
2.43.0


From 383f1099d06942f2ef0d53542d5a7d5064db37fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 06/24] fix: refuse to list the entries of a vault with a
 foreign key

---
 engine/src/vault/view.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index ae7f3f2..98a1751 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -373,6 +373,7 @@ impl<P: BoxProvider> Vault<P> {
 
     /// List the [`RecordId`]s of the entries stored in this [`Vault`].
     fn list_entries(&self, key: &Key<P>) -> Result<Vec<(RecordId, BlobId)>, RecordError<P::Error>> {
+        self.check_key(key)?;
         let mut buf = Vec::new();
         // revoked records have no readable content and are not part of the listing
         for (&id, record) in self.entries.iter().filter(|(_, record)| record.revoke.is_none()) {
-- 
2.43.0


From 452f348141ad4255fe31f79c9b9e16d959ffb4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 07/24] fix: treat guarded buffers of different length as
 unequal instead of reading out of bounds

---
 engine/runtime/src/types/const_eq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/runtime/src/types/const_eq.rs b/engine/runtime/src/types/const_eq.rs
index f827ef5..8df752d 100644
--- a/engine/runtime/src/types/const_eq.rs
+++ b/engine/runtime/src/types/const_eq.rs
@@ -8,6 +8,10 @@ use libsodium_sys::sodium_memcmp;
 /// A trait for comparing types in Constant Time using [`sodium_memcmp`].
 pub trait ConstEq: ContiguousBytes {
     fn const_eq(&self, rhs: &Self) -> bool {
+        if self.as_bytes().len() != rhs.as_bytes().len() {
+            return false;
+        }
+
         unsafe {
             sodium_memcmp(
                 self.as_bytes().as_ptr() as *const _,
-- 
2.43.0


From 4fd20775b4b2433d52720c6e8a29e9c4fd5ecaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 08/24] fix: lock the backing file again when reading file
 memory fails

---
 engine/runtime/src/memories/file_memory.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 1fdec12..0b38589 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -93,9 +93,9 @@ impl FileMemory {
     // Set access control before and after reading the file
     fn read_file(&self) -> Result<Vec<u8>, std::io::Error> {
         self.set_read_only()?;
-        let content = fs::read(&self.fname)?;
+        let content = fs::read(&self.fname);
         self.lock_file()?;
-        Ok(content)
+        content
     }
 
     // Set access control to minimum on the file
@@ -222,14 +222,15 @@ impl Clone for FileMemory {
     fn clone(&self) -> Self {
         let error_msg = "Issue while copying file";
         let fname = FileMemory::new_fname().expect(error_msg);
-        self.set_read_only().expect(error_msg);
-        fs::copy(&self.fname, fname.clone()).expect(error_msg);
-        self.lock_file().expect(error_msg);
         let fm = FileMemory {
             fname,
             noise: self.noise.clone(),
             size: self.size,
         };
+        self.set_read_only().expect(error_msg);
+        let copied = fs::copy(&self.fname, &fm.fname);
+        self.lock_file().expect(error_msg);
+        copied.expect(error_msg);
         fm.lock_file().expect(error_msg);
         fm
     }
-- 
2.43.0


From a17a20fd3ebfa88d41e6ee31863b62517daae621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 09/24] fix: deallocate a rejected fragment only once

---
 engine/runtime/src/memories/frag.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 715317b..56e5334 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -127,7 +127,7 @@ impl<T: Default + Clone> Frag<T> {
 
         for _ in 0..MAX_RETRY_ATTEMPTS {
             let config = Some(FragConfig::new(a.ptr.as_ptr() as usize));
-            let mut b = match strategy {
+            let b = match strategy {
                 FragStrategy::Direct => DirectAlloc::alloc(config),
                 FragStrategy::Map => MemoryMapAlloc::alloc(config),
                 FragStrategy::Hybrid => MemoryMapAlloc::alloc(config),
@@ -141,7 +141,8 @@ impl<T: Default + Clone> Frag<T> {
                     b.ptr.as_ptr() as usize,
                     &a as *const _ as usize
                 );
-                Frag::dealloc(&mut b)?;
+                // dropping the fragment deallocates it
+                drop(b);
                 continue;
             }
             info!("Mapped 2 fragments: at {:?} and {:?}", a.ptr, b.ptr);
-- 
2.43.0


From 8609018df2af12937b4ae93ccb918410e036aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 10/24] fix: give cloned fragments their own memory

---
 engine/runtime/src/memories/frag.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 56e5334..e496d16 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -57,7 +57,6 @@ pub trait Alloc<T: Default + Clone> {
 
 /// Frag is being used as control object to load different allocators
 /// according to their strategy
-#[derive(Clone)]
 pub struct Frag<T: Default + Clone> {
     ptr: NonNull<T>,
     strategy: FragStrategy,
@@ -89,6 +88,22 @@ impl<T: Default + Clone> Drop for Frag<T> {
     }
 }
 
+/// A clone owns an allocation of its own, made with the same strategy
+impl<T: Default + Clone> Clone for Frag<T> {
+    fn clone(&self) -> Self {
+        let mut frag: Self = match self.strategy {
+            FragStrategy::Map => MemoryMapAlloc::alloc(None),
+            FragStrategy::Direct | FragStrategy::Hybrid => DirectAlloc::alloc(None),
+        }
+        .expect("Error while allocating fragment memory");
+        unsafe {
+            *frag.ptr.as_mut() = self.ptr.as_ref().clone();
+        }
+        frag.live = self.live;
+        frag
+    }
+}
+
 unsafe impl<T: Default + Clone + Send> Send for Frag<T> {}
 unsafe impl<T: Default + Clone + Sync> Sync for Frag<T> {}
 
-- 
2.43.0


From af74d5de14076f0bb133e93afa962ba97f3d5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 11/24] fix: synchronise the borrow count of guarded memory
 between threads

---
 engine/runtime/src/boxed.rs | 40 +++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/engine/runtime/src/boxed.rs b/engine/runtime/src/boxed.rs
index 452e4ff..1b33fde 100644
--- a/engine/runtime/src/boxed.rs
+++ b/engine/runtime/src/boxed.rs
@@ -5,12 +5,12 @@ use crate::types::*;
 use zeroize::Zeroize;
 
 use core::{
-    cell::Cell,
     fmt::{self, Debug},
     mem,
     ptr::NonNull,
     slice,
 };
+use std::sync::{Mutex, MutexGuard};
 
 use libsodium_sys::{
     sodium_allocarray, sodium_free, sodium_init, sodium_mlock, sodium_mprotect_noaccess, sodium_mprotect_readonly,
@@ -26,17 +26,40 @@ enum Prot {
 
 type RefCount = u8;
 
+/// A small value that may be read and changed by several threads.
+struct Shared<T>(Mutex<T>);
+
+impl<T: Copy> Shared<T> {
+    fn new(value: T) -> Self {
+        Self(Mutex::new(value))
+    }
+
+    fn get(&self) -> T {
+        *acquire(&self.0)
+    }
+
+    fn set(&self, value: T) {
+        *acquire(&self.0) = value;
+    }
+}
+
+// The guarded values are consistent at any time, hence a lock poisoned by a failed assertion can be used further.
+fn acquire<T>(mutex: &Mutex<T>) -> MutexGuard<'_, T> {
+    mutex.lock().unwrap_or_else(|e| e.into_inner())
+}
+
 /// A protected piece of memory.
-#[derive(Eq)]
 pub(crate) struct Boxed<T: Bytes> {
     // the pointer to the underlying protected memory
     ptr: NonNull<T>,
     // The number of elements of type `T` that can be stored in the pointer.
     len: usize,
     // the current protection level of the data.
-    prot: Cell<Prot>,
+    prot: Shared<Prot>,
     // The number of current borrows of this pointer.
-    refs: Cell<RefCount>,
+    refs: Shared<RefCount>,
+    // Held while the number of borrows and the protection level are changed together.
+    borrows: Mutex<()>,
 }
 
 impl<T: Bytes> Boxed<T> {
@@ -152,12 +175,14 @@ impl<T: Bytes> Boxed<T> {
         Self {
             ptr,
             len,
-            prot: Cell::new(Prot::ReadWrite),
-            refs: Cell::new(1),
+            prot: Shared::new(Prot::ReadWrite),
+            refs: Shared::new(1),
+            borrows: Mutex::new(()),
         }
     }
 
     fn retain(&self, prot: Prot) {
+        let _borrows = acquire(&self.borrows);
         let refs = self.refs.get();
 
         if refs == 0 {
@@ -185,6 +210,7 @@ impl<T: Bytes> Boxed<T> {
     }
 
     fn release(&self) {
+        let _borrows = acquire(&self.borrows);
         assert!(self.refs.get() != 0, "Releases exceeded retains");
 
         assert!(
@@ -290,6 +316,8 @@ impl<T: Bytes + ConstEq> PartialEq for Boxed<T> {
     }
 }
 
+impl<T: Bytes + ConstEq + Eq> Eq for Boxed<T> {}
+
 impl<T: Bytes + Zeroed> From<&mut T> for Boxed<T> {
     fn from(data: &mut T) -> Self {
         Self::new(1, |b| unsafe { data.copy_and_zero(b.as_mut()) })
-- 
2.43.0


From ed22391c07f11a661ae92f217d262422b6cdbb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 12/24] fix: reject truncated ciphertexts with an error instead
 of a panic

---
 client/src/internal/provider.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/src/internal/provider.rs b/client/src/internal/provider.rs
index ff42932..aca3db9 100644
--- a/client/src/internal/provider.rs
+++ b/client/src/internal/provider.rs
@@ -59,6 +59,14 @@ impl BoxProvider for Provider {
 
     /// Decrypts the data using the xchacha20-poly1305 algorithm.
     fn box_open(key: &Key<Self>, ad: &[u8], data: &[u8]) -> Result<Vec<u8>, Self::Error> {
+        if data.len() < Self::box_overhead() {
+            return Err(crypto::Error::BufferSize {
+                name: "ciphertext",
+                needs: Self::box_overhead(),
+                has: data.len(),
+            });
+        }
+
         let (tag, ct) = data.split_at(Self::TAG_LEN);
         let (nonce, cipher) = ct.split_at(Self::NONCE_LEN);
 
-- 
2.43.0


From 35ec84277c292f958a64b15fc5540ea0920ac59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 13/24] fix: report undecryptable or inconsistent record
 content as an error instead of a panic

---
 engine/src/vault/view.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 98a1751..b020f03 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -510,7 +510,16 @@ impl Record {
 
         let blob = SealedBlob::from(self.blob.as_ref())
             .decrypt(key, tx.blob)
-            .expect("Unable to decrypt blob");
+            .map_err(|e| match e {
+                DecryptError::Provider(e) => RecordError::Provider(e),
+                DecryptError::Invalid => unreachable!("Vec<u8>: TryFrom<Vec<u8>> is infallible."),
+            })?;
+
+        if blob.len() as u64 != tx.len.u64() {
+            return Err(RecordError::CorruptedContent(
+                "Length of the content does not match the record's metadata".into(),
+            ));
+        }
 
         let guarded = Buffer::alloc(&blob, tx.len.u64() as usize);
 
-- 
2.43.0


From f26711ea5aeb662d17c0d5deb45d168b89ac04f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 14/24] fix: do not recurse endlessly when formatting a
 transaction

---
 engine/src/vault/types/transactions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/vault/types/transactions.rs b/engine/src/vault/types/transactions.rs
index 9df6656..8904e8b 100644
--- a/engine/src/vault/types/transactions.rs
+++ b/engine/src/vault/types/transactions.rs
@@ -41,7 +41,7 @@ pub struct Transaction(Vec<u8>);
 impl Debug for Transaction {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         f.debug_struct("Transaction")
-            .field("type", &self)
+            .field("type", &self.untyped().type_id)
             .field("id", &self.untyped().id)
             .finish()
     }
-- 
2.43.0


From d9ebf2d4fc770bc860310e90abfd4160dc9c7972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 15/24] fix: wipe the passphrase of a key provider on every
 path

---
 client/src/security/keyprovider.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/client/src/security/keyprovider.rs b/client/src/security/keyprovider.rs
index c68c738..16b0ea0 100644
--- a/client/src/security/keyprovider.rs
+++ b/client/src/security/keyprovider.rs
@@ -150,18 +150,17 @@ impl KeyProvider {
         D: Digest,
     {
         digest.update(passphrase.as_ref());
-        let key = digest.finalize().to_vec();
+        passphrase.zeroize();
+        let mut key = digest.finalize().to_vec();
 
         if key.len() != KEY_SIZE_HASHED {
             // This restriction refers to the current implementation of the non-contiguous types
             // and may be lifted in the future. This error will only be thrown, if digests will return
             // another size than 32 bytes.
+            key.zeroize();
             return Err(ClientError::IllegalKeySize(32));
         }
-        let result = Self::try_from(key).map_err(|e| ClientError::Inner(e.to_string()));
-        passphrase.zeroize();
-
-        result
+        Self::try_from(key).map_err(|e| ClientError::Inner(e.to_string()))
     }
 
     /// Creates a new [`KeyProvider`] from a passphrase, that will be hashed by `blake2b`.
@@ -264,14 +263,13 @@ impl KeyProvider {
     {
         let config = argon2::Config::default();
 
-        let key = argon2::hash_raw(passphrase.as_ref(), salt.as_ref(), &config)
-            .map_err(|e| ClientError::Inner(e.to_string()))?;
-
-        let result = Self::try_from(key.to_vec()).map_err(|e| ClientError::Inner(e.to_string()));
+        let hash = argon2::hash_raw(passphrase.as_ref(), salt.as_ref(), &config);
         passphrase.zeroize();
         salt.zeroize();
 
-        result
+        let key = hash.map_err(|e| ClientError::Inner(e.to_string()))?;
+
+        Self::try_from(key).map_err(|e| ClientError::Inner(e.to_string()))
     }
 }
 
-- 
2.43.0


From 0c8d4a472b383a31ee604643458e3285fe960b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 16/24] fix: keep the existing record at the output of the
 failing step of a procedure chain

---
 client/src/types/client.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/client/src/types/client.rs b/client/src/types/client.rs
index ae13eba..abe5104 100644
--- a/client/src/types/client.rs
+++ b/client/src/types/client.rs
@@ -243,9 +243,7 @@ impl Client {
         let mut log = Vec::new();
         // Execute the procedures sequentially.
         for proc in procedures {
-            if let Some(output) = proc.output() {
-                log.push(output);
-            }
+            let written = proc.output();
             let output = match proc.execute(self) {
                 Ok(o) => o,
                 Err(e) => {
@@ -255,6 +253,7 @@ impl Client {
                     return Err(e);
                 }
             };
+            log.extend(written);
             out.push(output);
         }
         Ok(out)
-- 
2.43.0


From 15658afb66369e6c77f2a8716e5c7f84652cf64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 17/24] fix: wipe the plaintext key bytes a vault key is loaded
 from

---
 engine/src/vault/crypto_box.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/engine/src/vault/crypto_box.rs b/engine/src/vault/crypto_box.rs
index b64f33e..c29ce81 100644
--- a/engine/src/vault/crypto_box.rs
+++ b/engine/src/vault/crypto_box.rs
@@ -11,6 +11,7 @@ use std::{
     hash::{Hash, Hasher},
     marker::PhantomData,
 };
+use zeroize::Zeroize;
 
 /// A provider interface between the vault and a crypto box. See libsodium's [secretbox](https://libsodium.gitbook.io/doc/secret-key_cryptography/secretbox) for an example.
 pub trait BoxProvider: 'static + Sized + Ord + PartialOrd {
@@ -69,15 +70,17 @@ impl<T: BoxProvider> Key<T> {
     /// attempts to load a key from inputted data
     ///
     /// Return `None` if the key length doesn't match [`BoxProvider::box_key_len`].
-    pub fn load(key: Vec<u8>) -> Option<Self> {
-        if key.len() == T::box_key_len() {
+    pub fn load(mut key: Vec<u8>) -> Option<Self> {
+        let loaded = if key.len() == T::box_key_len() {
             Some(Self {
                 key: Buffer::alloc(key.as_slice(), T::box_key_len()),
                 _box_provider: PhantomData,
             })
         } else {
             None
-        }
+        };
+        key.zeroize();
+        loaded
     }
 }
 
@@ -182,8 +185,8 @@ impl<T: BoxProvider> NCKey<T> {
     /// attempts to load a key from inputted data
     ///
     /// Return `None` if the key length doesn't match [`BoxProvider::box_key_len`].
-    pub fn load(key: Vec<u8>) -> Option<Self> {
-        if key.len() == T::box_key_len() {
+    pub fn load(mut key: Vec<u8>) -> Option<Self> {
+        let loaded = if key.len() == T::box_key_len() {
             Some(Self {
                 key: NonContiguousMemory::alloc(key.as_slice(), T::box_key_len(), NC_CONFIGURATION)
                     .unwrap_or_else(|e| panic!("{}", e)),
@@ -191,7 +194,9 @@ impl<T: BoxProvider> NCKey<T> {
             })
         } else {
             None
-        }
+        };
+        key.zeroize();
+        loaded
     }
 
     pub fn encrypt_key<AD: AsRef<[u8]>>(&self, data: &Key<T>, ad: AD) -> Result<Vec<u8>, T::Error> {
-- 
2.43.0


From ea13e7b805807170fa79fd6fda7acb64d4cd38cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 18/24] fix: wipe the snapshot key and report the error when
 storing it fails

---
 client/src/types/snapshot.rs   | 29 +++++++++++++----------------
 client/src/types/stronghold.rs |  7 +++++--
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index dbca914..4ee74e9 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -260,19 +260,11 @@ impl Snapshot {
         vault_id: VaultId,
         record_id: RecordId,
     ) -> Result<(), SnapshotError> {
-        // this should return an error
-        let key = self.keystore.create_key(vault_id).expect("Could not create key");
-        self.db.write(
-            &key,
-            vault_id,
-            record_id,
-            &snapshot_key,
-            RecordHint::new("").expect("0 <= 24"),
-        )?;
+        let stored = self.store_key(&snapshot_key, vault_id, record_id);
 
         snapshot_key.zeroize();
 
-        Ok(())
+        stored
     }
 
     /// Stores a secret [`crypto::keys::x25519::SecretKey`] as bytes at given location.
@@ -287,18 +279,23 @@ impl Snapshot {
     {
         let (vault_id, record_id) = location.resolve();
 
-        // this should return an error
-        let key = self.keystore.create_key(vault_id).expect("Could not create key");
+        let stored = self.store_key(encryption_key.as_ref(), vault_id, record_id);
+
+        encryption_key.as_mut().zeroize();
+
+        stored
+    }
+
+    /// Writes the bytes of a key into the record at given location.
+    fn store_key(&mut self, key_bytes: &[u8], vault_id: VaultId, record_id: RecordId) -> Result<(), SnapshotError> {
+        let key = self.keystore.create_key(vault_id)?;
         self.db.write(
             &key,
             vault_id,
             record_id,
-            encryption_key.as_ref(),
+            key_bytes,
             RecordHint::new("").expect("0 <= 24"),
         )?;
-
-        encryption_key.as_mut().zeroize();
-
         Ok(())
     }
 
diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index 0c3e3ab..1a15bee 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -240,14 +240,17 @@ impl Stronghold {
 
         let mut snapshot = self.snapshot.write()?;
         let mut key_location = self.key_location.write().map_err(|e| ClientError::LockAcquireFailed)?;
-        key_location.replace(location.clone());
 
         let mut kkey = [0u8; 32];
 
         let key = key.borrow();
         kkey.copy_from_slice(key.as_ref());
 
-        snapshot.store_secret_key(kkey, location)?;
+        let stored = snapshot.store_secret_key(kkey, location.clone());
+        kkey.zeroize();
+        stored?;
+
+        key_location.replace(location);
 
         Ok(())
     }
-- 
2.43.0


From e75ecd3c15798662ef8bbf718e1d38f6d207b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 19/24] fix: report a missing or invalid state key instead of
 an empty client state

---
 client/src/types/snapshot.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index 4ee74e9..6aa4b0c 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -162,17 +162,15 @@ impl Snapshot {
     /// Gets the state component parts as a tuple.
     pub fn get_state(&self, id: ClientId) -> Result<ClientState, SnapshotError> {
         let vid = VaultId(id.0);
-        let ((encrypted, store), key) = match self
-            .states
-            .get(&id)
-            .and_then(|state| self.keystore.get_key(vid).map(|pkey| (state, pkey)))
-            .and_then(|(state, pkey)| {
-                let k = &pkey.key;
-                k.borrow().deref().try_into().ok().map(|k| (state, k))
-            }) {
-            Some(t) => t,
+        let (encrypted, store) = match self.states.get(&id) {
+            Some(state) => state,
             None => return Ok((HashMap::default(), DbView::default(), Cache::default())),
         };
+        let key: Key = self
+            .keystore
+            .get_key(vid)
+            .and_then(|pkey| pkey.key.borrow().deref().try_into().ok())
+            .ok_or_else(|| SnapshotError::Inner(format!("Missing or invalid key for the state of client {:?}", id)))?;
         let decrypted = read(&mut encrypted.as_slice(), &key, &[])?;
         let (keys, db) = bincode::deserialize(&decrypted)?;
         Ok((keys, db, store.clone()))
-- 
2.43.0


From 97c148b0cc2bf5fc64eb45af48ba52a678e4a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 20/24] fix: hand out the bytes of a result through the C
 interface instead of the vector holding them

---
 bindings/native/src/lib.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/bindings/native/src/lib.rs b/bindings/native/src/lib.rs
index d2c75cf..108a4ac 100644
--- a/bindings/native/src/lib.rs
+++ b/bindings/native/src/lib.rs
@@ -30,6 +30,20 @@ fn set_last_error(err: WrapperError) {
     });
 }
 
+/// Copies the bytes of a result into memory that is handed out to the caller,
+/// who gives it back with [`stronghold_destroy_data_pointer`].
+fn export_bytes(bytes: &[u8]) -> *mut u8 {
+    let size = bytes.len().max(1);
+    unsafe {
+        let data = libc::malloc(size) as *mut u8;
+        if data.is_null() {
+            std::alloc::handle_alloc_error(std::alloc::Layout::array::<u8>(size).unwrap());
+        }
+        ptr::copy_nonoverlapping(bytes.as_ptr(), data, bytes.len());
+        data
+    }
+}
+
 #[no_mangle]
 pub extern "C" fn stronghold_set_log_level(log_level: libc::size_t) {
     let filter = match log_level {
@@ -146,7 +160,7 @@ pub unsafe extern "C" fn stronghold_destroy_data_pointer(ptr: *mut u8) {
         return;
     }
 
-    let _ = Box::from_raw(ptr);
+    libc::free(ptr as *mut libc::c_void);
 
     info!("[Rust] Destroyed instance");
 }
@@ -183,7 +197,7 @@ pub unsafe extern "C" fn stronghold_generate_ed25519_keypair(
         }
     };
 
-    Box::into_raw(Box::new(chain_code)) as *mut _
+    export_bytes(&[chain_code as u8])
 }
 
 /// # Safety
@@ -306,7 +320,7 @@ pub unsafe extern "C" fn stronghold_get_public_key(
         }
     };
 
-    Box::into_raw(Box::new(public_key)) as *mut _
+    export_bytes(&public_key)
 }
 
 /// # Safety
@@ -338,5 +352,5 @@ pub unsafe extern "C" fn stronghold_sign(
         }
     };
 
-    Box::into_raw(Box::new(signature)) as *mut _
+    export_bytes(&signature)
 }
-- 
2.43.0


From 2c6a07a5525b873ec290681bf19e15b7ee41244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 21/24] fix: keep the keys of client states apart from the
 snapshot key vaults

---
 client/src/types/snapshot.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index 6aa4b0c..43502b9 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -52,8 +52,10 @@ impl<'a> SyncClients<'a> for ClientState {
 /// Wrapper for the [`SnapshotState`] data structure.
 #[derive(Default)]
 pub struct Snapshot {
-    // Keys for vaults in db and for the encrypted client states.
+    // Keys for vaults in db.
     keystore: KeyStore<Provider>,
+    // Keys for the encrypted client states.
+    state_keys: KeyStore<Provider>,
     // Db with snapshot keys.
     db: DbView<Provider>,
     // Loaded snapshot states with each client state separately encrypted.
@@ -167,7 +169,7 @@ impl Snapshot {
             None => return Ok((HashMap::default(), DbView::default(), Cache::default())),
         };
         let key: Key = self
-            .keystore
+            .state_keys
             .get_key(vid)
             .and_then(|pkey| pkey.key.borrow().deref().try_into().ok())
             .ok_or_else(|| SnapshotError::Inner(format!("Missing or invalid key for the state of client {:?}", id)))?;
@@ -246,7 +248,7 @@ impl Snapshot {
         let mut buffer = Vec::new();
         write(&bytes, &mut buffer, &key, &[])?;
         let pkey = PKey::load(key.into()).expect("Provider::box_key_len == KEY_SIZE == 32");
-        self.keystore.insert_key(vault_id, pkey)?;
+        self.state_keys.insert_key(vault_id, pkey)?;
         self.states.insert(id, (buffer, store));
         Ok(())
     }
@@ -388,6 +390,7 @@ impl Snapshot {
     /// but from [`crate::Stronghold::clear()`]
     pub(crate) fn clear(&mut self) -> Result<(), SnapshotError> {
         self.keystore.clear_keys();
+        self.state_keys.clear_keys();
         self.db.clear();
         self.states.clear();
 
-- 
2.43.0


From 6ad41271db28ec1f80ca01c1769c4cb51a9b25b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 22/24] fix: compare secrets in constant time in the
 CompareSecret procedure

---
 client/src/procedures/primitives.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index ed47ac2..91ea78e 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -1092,9 +1092,9 @@ impl UseSecret<1> for CompareSecret {
                            // we assume a value of `1` as `true`, while a `0` is considered `false`
 
     fn use_secret(self, guard: [Buffer<u8>; 1]) -> Result<Self::Output, FatalProcedureError> {
-        let inner = guard[0].borrow();
-        let inner: &[u8] = inner.as_ref();
-        let result = self.expected.eq(&inner.to_vec());
+        // buffers are compared in constant time
+        let expected = Buffer::alloc(&self.expected, self.expected.len());
+        let result = expected == guard[0];
 
         Ok(vec![result.into()])
     }
-- 
2.43.0


From eb7006e473a33da8e3ce4924c06b6ef8f9831f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 23/24] fix: debug output of mnemonic and password procedures
 and of a snapshot key shows the secrets

BIP39Generate, BIP39Recover and Pbkdf2Hmac hold passphrases, mnemonics and passwords
that they wipe on drop, UseKey holds the snapshot encryption key; their derived Debug
printed them. Use GuardDebug like the other types that hold secrets.
---
 client/src/procedures/primitives.rs | 6 +++---
 client/src/types/snapshot.rs        | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 91ea78e..805310d 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -346,7 +346,7 @@ impl FromStr for MnemonicLanguage {
 
 /// Generate a BIP39 seed and its corresponding mnemonic sentence (optionally protected by a
 /// passphrase). Store the seed and return the mnemonic sentence as data output.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct BIP39Generate {
     pub passphrase: Option<String>,
     pub language: MnemonicLanguage,
@@ -392,7 +392,7 @@ impl Drop for BIP39Generate {
 
 /// Use a BIP39 mnemonic sentence (optionally protected by a passphrase) to create or recover
 /// a BIP39 seed and store it in the `output` location
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct BIP39Recover {
     pub passphrase: Option<String>,
     pub mnemonic: String,
@@ -732,7 +732,7 @@ impl DeriveSecret<1> for Hkdf {
     }
 }
 
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct Pbkdf2Hmac {
     pub hash_type: Sha2Hash,
 
diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index 43502b9..8fc4d20 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -20,7 +20,7 @@ use std::{
     ops::Deref,
     path::{Path, PathBuf},
 };
-use stronghold_utils::random;
+use stronghold_utils::{random, GuardDebug};
 use zeroize::Zeroize;
 
 use crate::{
@@ -127,7 +127,7 @@ impl Display for SnapshotPath {
     }
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, GuardDebug)]
 pub enum UseKey {
     Key(snapshot::Key),
     Stored(Location),
-- 
2.43.0


From 9b40abf0e767c2b3cd0fe72553d2564862798b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 24/24] fix: overwrite the file of a FileMemory in place before
 removing it

Opening it with File::create truncates it first: its blocks, still holding
the secret, are given back to the file system and the zeroes are written to
new ones.
---
 engine/runtime/src/memories/file_memory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 0b38589..c26547c 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -64,8 +64,8 @@ impl FileMemory {
 
     fn clear_and_delete_file(&self) -> Result<(), std::io::Error> {
         self.set_write_only()?;
-        let mut file = File::create(&self.fname)?;
-        // Zeroes out the file
+        // Zeroes out the file in place: truncating it would give its blocks back before they are overwritten
+        let mut file = fs::OpenOptions::new().write(true).open(&self.fname)?;
         file.write_all(&vec![0; self.size])?;
         // Remove file
         fs::remove_file(&self.fname)
-- 
2.43.0

