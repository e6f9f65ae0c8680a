From 6c3b9dfd86463312c6936001d343b88c4c10f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:11 +0000
Subject: [PATCH 01/32] fix: serialize protection changes of guarded memory
 between threads

Boxed is Sync but kept its reference count and protection level in plain
cells, so concurrent borrows of the same guarded buffer could lose updates and
abort ('Out-of-order retain/release detected') or lock memory in use.
---
 engine/runtime/src/boxed.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/boxed.rs b/engine/runtime/src/boxed.rs
index 452e4ff..0cdded1 100644
--- a/engine/runtime/src/boxed.rs
+++ b/engine/runtime/src/boxed.rs
@@ -12,6 +12,8 @@ use core::{
     slice,
 };
 
+use std::sync::{Mutex, MutexGuard};
+
 use libsodium_sys::{
     sodium_allocarray, sodium_free, sodium_init, sodium_mlock, sodium_mprotect_noaccess, sodium_mprotect_readonly,
     sodium_mprotect_readwrite,
@@ -27,7 +29,6 @@ enum Prot {
 type RefCount = u8;
 
 /// A protected piece of memory.
-#[derive(Eq)]
 pub(crate) struct Boxed<T: Bytes> {
     // the pointer to the underlying protected memory
     ptr: NonNull<T>,
@@ -37,6 +38,9 @@ pub(crate) struct Boxed<T: Bytes> {
     prot: Cell<Prot>,
     // The number of current borrows of this pointer.
     refs: Cell<RefCount>,
+    // Serializes changes of `prot` and `refs`: [`Boxed`] is `Sync`, hence several threads
+    // may concurrently borrow the same memory.
+    access: Mutex<()>,
 }
 
 impl<T: Bytes> Boxed<T> {
@@ -154,10 +158,19 @@ impl<T: Bytes> Boxed<T> {
             len,
             prot: Cell::new(Prot::ReadWrite),
             refs: Cell::new(1),
+            access: Mutex::new(()),
         }
     }
 
+    // The guarded cells are only modified after all checks passed, hence they are in a valid state
+    // even if a thread panicked while holding the lock.
+    fn guard_access(&self) -> MutexGuard<'_, ()> {
+        self.access.lock().unwrap_or_else(|e| e.into_inner())
+    }
+
     fn retain(&self, prot: Prot) {
+        let _access = self.guard_access();
+
         let refs = self.refs.get();
 
         if refs == 0 {
@@ -185,6 +198,8 @@ impl<T: Bytes> Boxed<T> {
     }
 
     fn release(&self) {
+        let _access = self.guard_access();
+
         assert!(self.refs.get() != 0, "Releases exceeded retains");
 
         assert!(
@@ -290,6 +305,8 @@ impl<T: Bytes + ConstEq> PartialEq for Boxed<T> {
     }
 }
 
+impl<T: Bytes + Eq + ConstEq> Eq for Boxed<T> {}
+
 impl<T: Bytes + Zeroed> From<&mut T> for Boxed<T> {
     fn from(data: &mut T) -> Self {
         Self::new(1, |b| unsafe { data.copy_and_zero(b.as_mut()) })
-- 
2.43.0


From e9154e309bc85a3e2adf66e116e87ccffbf7fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 02/32] fix: do not revoke the target of a failed procedure

Executing a procedure that fails (e.g. its source does not exist) revoked the
record that was already stored at the procedure's target location.
---
 client/src/types/client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client/src/types/client.rs b/client/src/types/client.rs
index ae13eba..1eaebcb 100644
--- a/client/src/types/client.rs
+++ b/client/src/types/client.rs
@@ -243,9 +243,7 @@ impl Client {
         let mut log = Vec::new();
         // Execute the procedures sequentially.
         for proc in procedures {
-            if let Some(output) = proc.output() {
-                log.push(output);
-            }
+            let target = proc.output();
             let output = match proc.execute(self) {
                 Ok(o) => o,
                 Err(e) => {
@@ -255,6 +253,11 @@ impl Client {
                     return Err(e);
                 }
             };
+            // Only a procedure that succeeded has written into its target. A record that already existed at the
+            // target of the failed procedure must not be revoked.
+            if let Some(target) = target {
+                log.push(target);
+            }
             out.push(output);
         }
         Ok(out)
-- 
2.43.0


From f18f1a2a0ba1a91b3f54d60104eba3c6d83217dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 03/32] fix: roll back all secrets derived by a failed
 procedure chain

The outputs of AesKeyWrapDecrypt and ConcatSecret were not known as outputs, so
they stayed usable after the chain they were part of had failed.
---
 client/src/procedures/primitives.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 9aa5386..e46f534 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -135,6 +135,11 @@ impl StrongholdProcedure {
             | StrongholdProcedure::X25519DiffieHellman(X25519DiffieHellman { shared_key: output, .. })
             | StrongholdProcedure::Hkdf(Hkdf { okm: output, .. })
             | StrongholdProcedure::ConcatKdf(ConcatKdf { output, .. })
+            | StrongholdProcedure::AesKeyWrapDecrypt(AesKeyWrapDecrypt { output, .. })
+            | StrongholdProcedure::ConcatSecret(ConcatSecret {
+                output_location: output,
+                ..
+            })
             | StrongholdProcedure::Pbkdf2Hmac(Pbkdf2Hmac { output, .. }) => Some(output.clone()),
             _ => None,
         }
-- 
2.43.0


From d9ee3f96703662c7ee9185e48a88f7165adae14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 04/32] fix: check for a loaded client before replacing the
 snapshot in memory

load_client_from_snapshot replaced the in-memory snapshot with the content of the file
before it returned ClientAlreadyLoaded, so the failing call dropped every client state
that had been written into the snapshot in memory but not committed yet.
---
 client/src/types/stronghold.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index 0c3e3ab..7c5177b 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -129,13 +129,14 @@ impl Stronghold {
         let mut snapshot = self.snapshot.write()?;
         let mut clients = self.clients.write()?;
 
-        load_snapshot!(snapshot, snapshot_path, keyprovider);
-
-        // If a client has already been loaded returns an error
+        // If a client has already been loaded returns an error. This must be checked before the snapshot is
+        // read, because reading it replaces the state of the snapshot in memory.
         if clients.contains_key(&client_id) {
             return Err(ClientError::ClientAlreadyLoaded(client_id));
         }
 
+        load_snapshot!(snapshot, snapshot_path, keyprovider);
+
         let client_state: ClientState = snapshot
             .get_state(client_id)
             .map_err(|e| ClientError::Inner(e.to_string()))?;
-- 
2.43.0


From 786b9f0504552f97c8059f73cafada5e0d703bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 05/32] fix: hold the snapshot lock while clearing the clients

Stronghold::clear released the snapshot between clearing it and locking the clients, so a
concurrent write_client or commit could put a client back into the cleared snapshot.
---
 client/src/types/stronghold.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index 7c5177b..e8c8a99 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -372,8 +372,11 @@ impl Stronghold {
     /// snapshot file. Use [`Self::load_client_from_snapshot`] to reload any [`Client`] and
     /// [`Snapshot`] state
     pub fn clear(&self) -> Result<(), ClientError> {
-        self.snapshot.write()?.clear()?;
+        // Keep the snapshot locked until the clients are cleared, otherwise a concurrent write of a client could
+        // bring cleared state back into the snapshot.
+        let mut snapshot = self.snapshot.write()?;
         let mut clients = self.clients.write()?;
+        snapshot.clear()?;
         self.store.clear()?;
         self.key_location.write()?.take();
         for (_, client) in clients.drain() {
-- 
2.43.0


From ef028eb28e0b7d360d890f84f4a4aa072e430a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 06/32] fix: keep the stored snapshot key when a snapshot is
 loaded

The key set with store_snapshot_key_at_location lives in the Snapshot that load_snapshot and
load_client_from_snapshot replace. The key location survived but the key did not, so every
later commit failed. Copy the key into the loaded snapshot.
---
 client/src/types/snapshot.rs   | 31 ++++++++++++++++++++-----------
 client/src/types/stronghold.rs | 14 ++++++++++----
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index dbca914..df9d40b 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -216,22 +216,31 @@ impl Snapshot {
 
         let key = match use_key {
             UseKey::Key(k) => k,
-            UseKey::Stored(loc) => {
-                let (vid, rid) = loc.resolve();
-                let pkey = self.keystore.get_key(vid).ok_or(SnapshotError::SnapshotKey(vid, rid))?;
-                let mut data = Vec::new();
-                self.db.get_guard::<Infallible, _>(&pkey, vid, rid, |guarded_data| {
-                    let guarded_data = guarded_data.borrow();
-                    data.extend_from_slice(&guarded_data);
-                    Ok(())
-                })?;
-                data.try_into().map_err(|_| SnapshotError::SnapshotKey(vid, rid))?
-            }
+            UseKey::Stored(loc) => self.get_stored_key(&loc)?,
         };
 
         write_to_file(&data, snapshot_path.as_path(), &key, &[]).map_err(|e| e.into())
     }
 
+    /// Reads the snapshot key that is stored at the given location.
+    fn get_stored_key(&self, location: &Location) -> Result<snapshot::Key, SnapshotError> {
+        let (vid, rid) = location.resolve();
+        let pkey = self.keystore.get_key(vid).ok_or(SnapshotError::SnapshotKey(vid, rid))?;
+        let mut data = Vec::new();
+        self.db.get_guard::<Infallible, _>(&pkey, vid, rid, |guarded_data| {
+            let guarded_data = guarded_data.borrow();
+            data.extend_from_slice(&guarded_data);
+            Ok(())
+        })?;
+        data.try_into().map_err(|_| SnapshotError::SnapshotKey(vid, rid))
+    }
+
+    /// Takes over the snapshot key that another [`Snapshot`] stores at the given location.
+    pub(crate) fn copy_stored_key(&mut self, from: &Snapshot, location: &Location) -> Result<(), SnapshotError> {
+        let key = from.get_stored_key(location)?;
+        self.store_secret_key(key, location.clone())
+    }
+
     /// Adds data to the snapshot state hashmap.
     pub fn add_data(
         &mut self,
diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index e8c8a99..18a4dfe 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -49,7 +49,7 @@ macro_rules! write_with_clientid {
 /// ending at the end of a function
 /// # Example
 macro_rules! load_snapshot {
-    ($snapshot:expr, $snapshot_path:expr, $keyprovider:expr) => {{
+    ($snapshot:expr, $snapshot_path:expr, $keyprovider:expr, $key_location:expr) => {{
         {
             if !($snapshot_path).exists() {
                 let path = ($snapshot_path)
@@ -66,8 +66,14 @@ macro_rules! load_snapshot {
                 .map_err(|e| ClientError::Inner(format!("{:?}", e)))?;
             let buffer_ref = buffer.borrow().deref().try_into().unwrap();
 
-            *($snapshot) = Snapshot::read_from_snapshot(($snapshot_path), buffer_ref, None)
+            let mut loaded = Snapshot::read_from_snapshot(($snapshot_path), buffer_ref, None)
                 .map_err(|e| ClientError::Inner(e.to_string()))?;
+
+            // The key to write the snapshot lives inside the snapshot that is being replaced
+            if let Some(location) = ($key_location).read()?.as_ref() {
+                loaded.copy_stored_key(&*($snapshot), location)?;
+            }
+            *($snapshot) = loaded;
             // END CRITICAL SECTION
         }
     }};
@@ -135,7 +141,7 @@ impl Stronghold {
             return Err(ClientError::ClientAlreadyLoaded(client_id));
         }
 
-        load_snapshot!(snapshot, snapshot_path, keyprovider);
+        load_snapshot!(snapshot, snapshot_path, keyprovider, self.key_location);
 
         let client_state: ClientState = snapshot
             .get_state(client_id)
@@ -230,7 +236,7 @@ impl Stronghold {
     /// # Example
     pub fn load_snapshot(&self, keyprovider: &KeyProvider, snapshot_path: &SnapshotPath) -> Result<(), ClientError> {
         let mut snapshot = self.snapshot.write()?;
-        load_snapshot!(snapshot, snapshot_path, keyprovider);
+        load_snapshot!(snapshot, snapshot_path, keyprovider, self.key_location);
         Ok(())
     }
 
-- 
2.43.0


From e92a2ffd6345e658bd6ee1429e4dd5fd3d66ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 07/32] fix: keep the vault key of the snapshot key when a
 client of the same name is written

Client states and the snapshot key share one key store in the snapshot. Adding the state of
a client whose path equals the vault path of the key location replaced the key of that vault
and made the stored snapshot key unreadable.
---
 client/src/types/snapshot.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index df9d40b..94c2c39 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -20,7 +20,6 @@ use std::{
     ops::Deref,
     path::{Path, PathBuf},
 };
-use stronghold_utils::random;
 use zeroize::Zeroize;
 
 use crate::{
@@ -253,11 +252,16 @@ impl Snapshot {
     ) -> Result<(), SnapshotError> {
         let bytes = bincode::serialize(&(keys, db))?;
         let vault_id = VaultId(id.0);
-        let key: snapshot::Key = random::random();
+        // A key that exists already must be kept: the vault with the snapshot key may have the same id as the client.
+        let pkey = self.keystore.create_key(vault_id)?;
+        let key: snapshot::Key = pkey
+            .key
+            .borrow()
+            .deref()
+            .try_into()
+            .expect("Provider::box_key_len == KEY_SIZE == 32");
         let mut buffer = Vec::new();
         write(&bytes, &mut buffer, &key, &[])?;
-        let pkey = PKey::load(key.into()).expect("Provider::box_key_len == KEY_SIZE == 32");
-        self.keystore.insert_key(vault_id, pkey)?;
         self.states.insert(id, (buffer, store));
         Ok(())
     }
-- 
2.43.0


From f2ef1b2a1aa18f4ceccc90c7f6248b7ffb0815dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 08/32] fix: apply record selection and vault mapping when
 computing the sync difference

The record selection was ignored when the target vault did not exist yet, and the blob ids of records in a mapped
target vault were looked up with the key of the source vault.
---
 client/src/sync.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index ee7bdee..b3fd9e0 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -136,11 +136,6 @@ pub(crate) trait SyncClients<'a> {
                 }
             }
             let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
-            if !db.contains_vault(&mapped_vid) {
-                let d = list.into_iter().map(|(rid, _)| rid).collect();
-                diff.insert(vid, d);
-                continue;
-            }
             let select_records = config.select_records.get(&vid);
             let mut record_diff = Vec::new();
             for (rid, bid) in list {
@@ -158,14 +153,14 @@ pub(crate) trait SyncClients<'a> {
                 }
                 match &key_provider {
                     KeyProvider::KeyStore(ks) => {
-                        if let Some(target_key) = ks.get_key(vid) {
+                        if let Some(target_key) = ks.get_key(mapped_vid) {
                             if db.get_blob_id(&target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
                         }
                     }
                     KeyProvider::KeyMap(map) => {
-                        if let Some(target_key) = map.get(&vid) {
+                        if let Some(target_key) = map.get(&mapped_vid) {
                             if db.get_blob_id(target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
-- 
2.43.0


From a30ca01bfa71d0c613dbbd59a3fcdac2d24b24af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 09/32] fix: skip revoked records when synchronizing vaults

A record that was revoked but not yet garbage collected made the whole synchronization fail, or panic in
import_records. A vault key without a vault made a selective synchronization fail as well.
---
 client/src/sync.rs       |  4 ++++
 engine/src/vault/view.rs | 12 +++++-------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index b3fd9e0..085b3a4 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -100,6 +100,10 @@ pub(crate) trait SyncClients<'a> {
         let vaults = vaults.unwrap_or_else(|| db.list_vaults());
         let mut hierarchy = HashMap::new();
         for vid in vaults {
+            // A key may exist for a vault into which nothing has been written yet.
+            if !db.contains_vault(&vid) {
+                continue;
+            }
             let list = match &key_provider {
                 KeyProvider::KeyStore(ks) => {
                     let key = match ks.get_key(vid) {
diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 3874686..1a40629 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -299,9 +299,7 @@ impl<P: BoxProvider> DbView<P> {
             self.init_vault(new_key, vid);
         }
         for (rid, record) in &mut records {
-            record
-                .update_meta(old_key, (*rid).into(), new_key, (*rid).into())
-                .unwrap();
+            record.update_meta(old_key, (*rid).into(), new_key, (*rid).into())?;
         }
         let vault = self.vaults.get_mut(&vid).expect("Vault was initiated.");
         vault.extend(new_key, records.into_iter().map(|(rid, r)| (rid.0, r)))
@@ -353,9 +351,9 @@ impl<P: BoxProvider> Vault<P> {
     }
 
     /// Export record stored in the current vault. This clones the encrypted record without
-    /// removing it.
+    /// removing it. Returns `None` if the record does not exist or was revoked.
     pub fn export_record(&self, rid: &RecordId) -> Option<Record> {
-        self.entries.get(&rid.0).cloned()
+        self.entries.get(&rid.0).filter(|record| record.revoke.is_none()).cloned()
     }
 
     /// List the [`RecordHint`] values and [`RecordId`] values of the specified [`Vault`].
@@ -373,10 +371,10 @@ impl<P: BoxProvider> Vault<P> {
         buf
     }
 
-    /// List the [`RecordId`]s of the entries stored in this [`Vault`].
+    /// List the [`RecordId`]s of the entries stored in this [`Vault`] that have not been revoked.
     fn list_entries(&self, key: &Key<P>) -> Result<Vec<(RecordId, BlobId)>, RecordError<P::Error>> {
         let mut buf = Vec::new();
-        for (&id, record) in self.entries.iter() {
+        for (&id, record) in self.entries.iter().filter(|(_, record)| record.revoke.is_none()) {
             let blob_id = record.get_blob_id(key, id)?;
             buf.push((id.into(), blob_id))
         }
-- 
2.43.0


From 1f303f9802acead6ac7c95301ac317c8d4c2e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 10/32] fix: merge snapshots into the mapped clients and vaults
 and report failures

The difference was computed against, and the records imported into, the unmapped client and vault; a vault mapping could
panic, and an import that failed was reported as success.
---
 client/src/sync.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index 085b3a4..1140009 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -309,7 +309,7 @@ pub(crate) trait SyncSnapshots {
                 };
                 Ok(Some(client_diff))
             };
-            if let Some(client_diff) = self.get_from_state(cid, f)? {
+            if let Some(client_diff) = self.get_from_state(mapped_cid, f)? {
                 diff.insert(cid, client_diff);
             }
         }
@@ -364,25 +364,25 @@ pub(crate) trait SyncSnapshots {
                         records.retain(|(rid, _)| select_records.contains(rid));
                     }
                     let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
-                    state.0.entry(vid).or_insert_with(Key::random);
+                    state.0.entry(mapped_vid).or_insert_with(Key::random);
                     let old_key = old_keystore
                         .get(&vid)
                         .ok_or_else(|| SnapshotError::Inner(format!("Missing Key for vault {:?}", vid)))?;
                     let new_key = state.0.get(&mapped_vid).expect("Key was inserted.");
-                    state.1.import_records(old_key, new_key, vid, records)?;
+                    state.1.import_records(old_key, new_key, mapped_vid, records)?;
                 }
                 Ok(())
             };
-            let f = match config.client_config.get(&cid) {
-                Some(c) => self.update_state(cid, |state| import_records(state, c)),
+            match config.client_config.get(&cid) {
+                Some(c) => self.update_state(mapped_cid, |state| import_records(state, c)),
                 None => {
                     let config = SyncClientsConfig {
                         merge_policy: config.merge_policy,
                         ..Default::default()
                     };
-                    self.update_state(cid, |state| import_records(state, &config))
+                    self.update_state(mapped_cid, |state| import_records(state, &config))
                 }
-            };
+            }?;
         }
         Ok(())
     }
-- 
2.43.0


From 9490942f808a978b052d521dd863187348140136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 11/32] fix: compute the number of ConcatKdf rounds without
 overflow

---
 client/src/procedures/primitives.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index e46f534..67c3670 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -941,7 +941,9 @@ impl ConcatKdf {
 
         let mut output: Vec<u8> = Vec::new();
 
-        let target: usize = (len + (<D as Digest>::output_size() - 1)) / <D as Digest>::output_size();
+        // number of hash blocks, rounded up (this must not overflow for any length)
+        let size: usize = <D as Digest>::output_size();
+        let target: usize = len / size + usize::from(len % size != 0);
         let rounds: u32 =
             u32::try_from(target).map_err(|_| FatalProcedureError::from("u32 iteration overflow".to_owned()))?;
 
-- 
2.43.0


From 0d06613df2a6c07aae6c5684264ba6ea96461a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 12/32] fix: refuse AES key wrap keys of the wrong length
 instead of panicking

---
 client/src/procedures/primitives.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 67c3670..ad870d2 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -987,6 +987,18 @@ pub enum AesKeyWrapCipher {
     Aes256,
 }
 
+/// `Aes256Kw` panics on keys of the wrong length, so it has to be checked before.
+fn check_aes_kw_key(key: &[u8]) -> Result<(), FatalProcedureError> {
+    if key.len() != Aes256Kw::KEY_LENGTH {
+        return Err(FatalProcedureError::from(format!(
+            "AES key wrap needs a key of {} bytes, got {}",
+            Aes256Kw::KEY_LENGTH,
+            key.len()
+        )));
+    }
+    Ok(())
+}
+
 /// Encrypts a key in a vault using another key, and returns the ciphertext.
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct AesKeyWrapEncrypt {
@@ -1016,6 +1028,7 @@ impl AesKeyWrapEncrypt {
         // The enum was added for future proofing so support for other variants can be added non-breakingly.
         let mut ciphertext: Vec<u8> = vec![0; wrap_key.len() + Aes256Kw::BLOCK];
 
+        check_aes_kw_key(encryption_key)?;
         let wrap: Aes256Kw = Aes256Kw::new(encryption_key);
         wrap.wrap_key(wrap_key, &mut ciphertext)?;
 
@@ -1068,6 +1081,7 @@ impl AesKeyWrapDecrypt {
         })?;
         let mut plaintext: Vec<u8> = vec![0; plaintext_len];
 
+        check_aes_kw_key(decryption_key)?;
         let wrap: Aes256Kw = Aes256Kw::new(decryption_key);
         wrap.unwrap_key(self.wrapped_key.as_ref(), &mut plaintext)?;
 
-- 
2.43.0


From def82ee8883c83ab37b8000e7f6ee65c3296c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 13/32] fix: fail Slip10Generate when the seed can not be
 allocated

---
 client/src/procedures/primitives.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index ad870d2..064136e 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -448,7 +448,10 @@ impl GenerateSecret for Slip10Generate {
 
     fn generate(self) -> Result<Products<Self::Output>, FatalProcedureError> {
         let size_bytes = self.size_bytes.unwrap_or(64);
-        let mut seed = vec![0u8; size_bytes];
+        let mut seed = Vec::new();
+        seed.try_reserve_exact(size_bytes)
+            .map_err(|e| FatalProcedureError::from(format!("seed of {size_bytes} bytes: {e}")))?;
+        seed.resize(size_bytes, 0u8);
         fill(&mut seed)?;
         Ok(Products {
             secret: seed,
-- 
2.43.0


From 81aff2c772509c0b5249153dd84175f1078032ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 14/32] fix: accept store lifetimes that end after the latest
 representable time

---
 engine/src/store/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/store/storage.rs b/engine/src/store/storage.rs
index 7c8b217..0e06e16 100644
--- a/engine/src/store/storage.rs
+++ b/engine/src/store/storage.rs
@@ -20,7 +20,8 @@ impl<T> Value<T> {
     pub fn new(val: T, duration: Option<Duration>) -> Self {
         Value {
             val,
-            expiration: duration.map(|d| SystemTime::now() + d),
+            // A value whose lifetime ends after the latest representable time never expires.
+            expiration: duration.and_then(|d| SystemTime::now().checked_add(d)),
         }
     }
 
-- 
2.43.0


From 62aef046b53cad5daa8192befbf0d6f86943c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 15/32] fix: do not panic in the cache scanner when the system
 clock was set back

---
 engine/src/store/storage/cache.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/engine/src/store/storage/cache.rs b/engine/src/store/storage/cache.rs
index b0b66f0..c133884 100644
--- a/engine/src/store/storage/cache.rs
+++ b/engine/src/store/storage/cache.rs
@@ -248,11 +248,12 @@ impl<K: Hash + Eq + Clone, V: Clone + Debug> Cache<K, V> {
     /// attempts to remove expired items based on the current system time provided.
     fn try_remove_expired_items(&mut self, now: SystemTime) {
         if let Some(frequency) = self.scan_freq {
-            let since = now
+            // If the system clock has been set back, the time since the last scan is unknown: scan now.
+            let due = now
                 .duration_since(self.last_scan_at.unwrap_or(self.created_at))
-                .expect("System time is before the scanned time");
+                .map_or(true, |since| since >= frequency);
 
-            if since >= frequency {
+            if due {
                 self.table.retain(|_, value| !value.has_expired(now));
 
                 self.last_scan_at = Some(now)
-- 
2.43.0


From 989a233ccdcb3912c20e72e30b6487f742c8d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 16/32] fix: return an error when the content of a record can
 not be decrypted

---
 engine/src/vault/view.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 1a40629..53872ad 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -508,7 +508,10 @@ impl Record {
 
         let blob = SealedBlob::from(self.blob.as_ref())
             .decrypt(key, tx.blob)
-            .expect("Unable to decrypt blob");
+            .map_err(|e| match e {
+                DecryptError::Provider(e) => RecordError::Provider(e),
+                DecryptError::Invalid => unreachable!("Vec<u8>: TryFrom<Vec<u8>> is infallible."),
+            })?;
 
         let guarded = Buffer::alloc(&blob, tx.len.u64() as usize);
 
-- 
2.43.0


From 15002b80c6e6f87a0b6c1ea7ea606b3c42f1c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 17/32] fix: refuse boxes that are shorter than nonce and tag
 instead of panicking

---
 client/src/internal/provider.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/src/internal/provider.rs b/client/src/internal/provider.rs
index ff42932..d42889d 100644
--- a/client/src/internal/provider.rs
+++ b/client/src/internal/provider.rs
@@ -59,6 +59,13 @@ impl BoxProvider for Provider {
 
     /// Decrypts the data using the xchacha20-poly1305 algorithm.
     fn box_open(key: &Key<Self>, ad: &[u8], data: &[u8]) -> Result<Vec<u8>, Self::Error> {
+        if data.len() < Self::box_overhead() {
+            return Err(crypto::Error::BufferSize {
+                name: "box",
+                needs: Self::box_overhead(),
+                has: data.len(),
+            });
+        }
         let (tag, ct) = data.split_at(Self::TAG_LEN);
         let (nonce, cipher) = ct.split_at(Self::NONCE_LEN);
 
-- 
2.43.0


From 680e3e74ebb032095a00ff528f9f60ce76b3490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:55 +0000
Subject: [PATCH 18/32] fix: keep passphrases, mnemonics, passwords and
 snapshot keys out of debug text

---
 client/src/procedures/primitives.rs | 6 +++---
 client/src/types/snapshot.rs        | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 064136e..7de7f6e 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -347,7 +347,7 @@ impl FromStr for MnemonicLanguage {
 
 /// Generate a BIP39 seed and its corresponding mnemonic sentence (optionally protected by a
 /// passphrase). Store the seed and return the mnemonic sentence as data output.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct BIP39Generate {
     pub passphrase: Option<String>,
     pub language: MnemonicLanguage,
@@ -393,7 +393,7 @@ impl Drop for BIP39Generate {
 
 /// Use a BIP39 mnemonic sentence (optionally protected by a passphrase) to create or recover
 /// a BIP39 seed and store it in the `output` location
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct BIP39Recover {
     pub passphrase: Option<String>,
     pub mnemonic: String,
@@ -736,7 +736,7 @@ impl DeriveSecret<1> for Hkdf {
     }
 }
 
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct Pbkdf2Hmac {
     pub hash_type: Sha2Hash,
 
diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index 94c2c39..b60010d 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -20,6 +20,7 @@ use std::{
     ops::Deref,
     path::{Path, PathBuf},
 };
+use stronghold_utils::GuardDebug;
 use zeroize::Zeroize;
 
 use crate::{
@@ -124,7 +125,7 @@ impl Display for SnapshotPath {
     }
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, GuardDebug)]
 pub enum UseKey {
     Key(snapshot::Key),
     Stored(Location),
-- 
2.43.0


From 386e3dd92bd91067e3a5bab6ee14c379a777c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 19/32] fix: make the directory of a snapshot durable before a
 commit reports success

---
 engine/src/snapshot/logic.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/engine/src/snapshot/logic.rs b/engine/src/snapshot/logic.rs
index c388a5a..846a95c 100644
--- a/engine/src/snapshot/logic.rs
+++ b/engine/src/snapshot/logic.rs
@@ -182,6 +182,13 @@ pub fn write_to(plain: &[u8], path: &Path, key: &Key, associated_data: &[u8]) ->
     s.push(hex::encode(salt));
     let tmp = Path::new(&s);
 
+    // The directory is opened first: after the rename nothing but making it durable may fail.
+    #[cfg(unix)]
+    let dir = File::open(match path.parent() {
+        Some(dir) if !dir.as_os_str().is_empty() => dir,
+        _ => Path::new("."),
+    })?;
+
     let mut f = OpenOptions::new().write(true).create_new(true).open(tmp)?;
     // write magic and version bytes
     f.write_all(&MAGIC)?;
@@ -191,6 +198,10 @@ pub fn write_to(plain: &[u8], path: &Path, key: &Key, associated_data: &[u8]) ->
 
     rename(tmp, path)?;
 
+    // The rename is durable only once the directory is.
+    #[cfg(unix)]
+    dir.sync_all()?;
+
     Ok(())
 }
 
-- 
2.43.0


From 9f7fc48bdab07ab5360718cefa066714fb55c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 20/32] fix: lock the file of a file memory again when reading
 it fails

---
 engine/runtime/src/memories/file_memory.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 1fdec12..6c2996a 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -93,9 +93,10 @@ impl FileMemory {
     // Set access control before and after reading the file
     fn read_file(&self) -> Result<Vec<u8>, std::io::Error> {
         self.set_read_only()?;
-        let content = fs::read(&self.fname)?;
+        let content = fs::read(&self.fname);
+        // The file has to be locked again even if it could not be read
         self.lock_file()?;
-        Ok(content)
+        content
     }
 
     // Set access control to minimum on the file
-- 
2.43.0


From 5515322cdb38328f6394c9a84bdacc6a3949d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 21/32] fix: remove the file of a file memory when zeroing it
 fails

---
 engine/runtime/src/memories/file_memory.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 6c2996a..13f5a7d 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -63,12 +63,17 @@ impl FileMemory {
     }
 
     fn clear_and_delete_file(&self) -> Result<(), std::io::Error> {
+        // Zeroes out the file
+        let zeroed = self.zero_file();
+        // Remove file, even if it could not be zeroed
+        fs::remove_file(&self.fname)?;
+        zeroed
+    }
+
+    fn zero_file(&self) -> Result<(), std::io::Error> {
         self.set_write_only()?;
         let mut file = File::create(&self.fname)?;
-        // Zeroes out the file
-        file.write_all(&vec![0; self.size])?;
-        // Remove file
-        fs::remove_file(&self.fname)
+        file.write_all(&vec![0; self.size])
     }
 
     // We create a directory in the home directory to store the data
-- 
2.43.0


From 1be28892e88f278aaef498c4550fa1e1cd042f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 22/32] fix: leave no unlocked file behind when cloning a file
 memory fails

---
 engine/runtime/src/memories/file_memory.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 13f5a7d..f3a3b30 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -228,15 +228,14 @@ impl Clone for FileMemory {
     fn clone(&self) -> Self {
         let error_msg = "Issue while copying file";
         let fname = FileMemory::new_fname().expect(error_msg);
-        self.set_read_only().expect(error_msg);
-        fs::copy(&self.fname, fname.clone()).expect(error_msg);
-        self.lock_file().expect(error_msg);
+        let content = self.read_file().expect(error_msg);
+        // Created before the file is, so that the file is removed if writing it fails
         let fm = FileMemory {
             fname,
             noise: self.noise.clone(),
             size: self.size,
         };
-        fm.lock_file().expect(error_msg);
+        fm.write_to_file(&content).expect(error_msg);
         fm
     }
 }
-- 
2.43.0


From 7caaf33c0fb0440bfef8ccf5ae41bb514f5def9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 23/32] fix: report errors of a file memory instead of
 panicking

---
 engine/runtime/src/memories/file_memory.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index f3a3b30..c3d2b5d 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -10,8 +10,8 @@ use core::{
 };
 use dirs::{data_local_dir, home_dir};
 use serde::{
-    de::{Deserialize, Deserializer, SeqAccess, Visitor},
-    ser::{Serialize, Serializer},
+    de::{Deserialize, Deserializer, Error as _, SeqAccess, Visitor},
+    ser::{Error as _, Serialize, Serializer},
 };
 use std::{
     fs::{self, File},
@@ -192,6 +192,9 @@ impl LockedMemory for FileMemory {
         }
 
         let data = self.read_file().or(Err(FileSystemError))?;
+        if data.len() != self.size {
+            return Err(FileSystemError);
+        }
         let data = xor(&data, &self.noise, self.size);
         Ok(Buffer::alloc(&data, self.size))
     }
@@ -245,7 +248,7 @@ impl Serialize for FileMemory {
     where
         S: Serializer,
     {
-        let buf = self.unlock().expect("Failed to unlock file memory for serialization");
+        let buf = self.unlock().map_err(S::Error::custom)?;
         buf.serialize(serializer)
     }
 }
@@ -277,9 +280,7 @@ impl<'de> Visitor<'de> for FileMemoryVisitor {
             seq.push(e);
         }
 
-        let seq = FileMemory::alloc(seq.as_slice(), seq.len()).expect("Failed to deserialize file memory");
-
-        Ok(seq)
+        FileMemory::alloc(seq.as_slice(), seq.len()).map_err(E::Error::custom)
     }
 }
 
-- 
2.43.0


From 4f68a3ef478fdc03b9bb8f9b5878cc0eea7f8710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 24/32] fix: let one thread at a time change the access control
 of a file memory

---
 engine/runtime/src/memories/file_memory.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index c3d2b5d..9f1c1af 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -17,6 +17,7 @@ use std::{
     fs::{self, File},
     io::{self, prelude::*},
     path::PathBuf,
+    sync::Mutex,
 };
 
 #[cfg(unix)]
@@ -35,6 +36,8 @@ pub struct FileMemory {
     noise: Vec<u8>,
     // Size of the decrypted data
     size: usize,
+    // The access control of the file is changed by one thread at a time
+    access: Mutex<()>,
 }
 
 impl FileMemory {
@@ -50,7 +53,12 @@ impl FileMemory {
 
         // Write to file
         let fname = FileMemory::new_fname().or(Err(FileSystemError))?;
-        let fm = FileMemory { fname, noise, size };
+        let fm = FileMemory {
+            fname,
+            noise,
+            size,
+            access: Mutex::new(()),
+        };
         fm.write_to_file(&data).or(Err(FileSystemError))?;
         Ok(fm)
     }
@@ -97,6 +105,7 @@ impl FileMemory {
 
     // Set access control before and after reading the file
     fn read_file(&self) -> Result<Vec<u8>, std::io::Error> {
+        let _access = self.access.lock().unwrap_or_else(|e| e.into_inner());
         self.set_read_only()?;
         let content = fs::read(&self.fname);
         // The file has to be locked again even if it could not be read
@@ -237,6 +246,7 @@ impl Clone for FileMemory {
             fname,
             noise: self.noise.clone(),
             size: self.size,
+            access: Mutex::new(()),
         };
         fm.write_to_file(&content).expect(error_msg);
         fm
-- 
2.43.0


From d93aa97ccd665d5be7b749aa13cedc8783ccdb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:26 +0000
Subject: [PATCH 25/32] fix: do not clone a file memory from a file that is too
 short

---
 engine/runtime/src/memories/file_memory.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 9f1c1af..6b4c9fa 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -110,7 +110,11 @@ impl FileMemory {
         let content = fs::read(&self.fname);
         // The file has to be locked again even if it could not be read
         self.lock_file()?;
-        content
+        let content = content?;
+        if content.len() != self.size {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+        Ok(content)
     }
 
     // Set access control to minimum on the file
@@ -201,9 +205,6 @@ impl LockedMemory for FileMemory {
         }
 
         let data = self.read_file().or(Err(FileSystemError))?;
-        if data.len() != self.size {
-            return Err(FileSystemError);
-        }
         let data = xor(&data, &self.noise, self.size);
         Ok(Buffer::alloc(&data, self.size))
     }
-- 
2.43.0


From c3bd7b70eeffdcc88506009d5b8219786b69fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 26/32] fix: return the bytes of public keys and signatures
 through the native bindings

---
 bindings/native/src/lib.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/bindings/native/src/lib.rs b/bindings/native/src/lib.rs
index d2c75cf..867113d 100644
--- a/bindings/native/src/lib.rs
+++ b/bindings/native/src/lib.rs
@@ -30,6 +30,17 @@ fn set_last_error(err: WrapperError) {
     });
 }
 
+/// Copies bytes into memory that is released with [`stronghold_destroy_data_pointer`].
+fn into_data_pointer(data: &[u8]) -> *mut u8 {
+    unsafe {
+        let ptr = libc::malloc(data.len()) as *mut u8;
+        if !ptr.is_null() {
+            ptr::copy_nonoverlapping(data.as_ptr(), ptr, data.len());
+        }
+        ptr
+    }
+}
+
 #[no_mangle]
 pub extern "C" fn stronghold_set_log_level(log_level: libc::size_t) {
     let filter = match log_level {
@@ -146,7 +157,7 @@ pub unsafe extern "C" fn stronghold_destroy_data_pointer(ptr: *mut u8) {
         return;
     }
 
-    let _ = Box::from_raw(ptr);
+    libc::free(ptr as *mut _);
 
     info!("[Rust] Destroyed instance");
 }
@@ -183,7 +194,7 @@ pub unsafe extern "C" fn stronghold_generate_ed25519_keypair(
         }
     };
 
-    Box::into_raw(Box::new(chain_code)) as *mut _
+    into_data_pointer(&[chain_code as u8])
 }
 
 /// # Safety
@@ -306,7 +317,7 @@ pub unsafe extern "C" fn stronghold_get_public_key(
         }
     };
 
-    Box::into_raw(Box::new(public_key)) as *mut _
+    into_data_pointer(&public_key)
 }
 
 /// # Safety
@@ -338,5 +349,5 @@ pub unsafe extern "C" fn stronghold_sign(
         }
     };
 
-    Box::into_raw(Box::new(signature)) as *mut _
+    into_data_pointer(&signature)
 }
-- 
2.43.0


From 9f39b28f292777038a9a4c7263a24c859a21d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 27/32] fix: compare guarded contents of different lengths as
 different

---
 engine/runtime/src/types/const_eq.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/runtime/src/types/const_eq.rs b/engine/runtime/src/types/const_eq.rs
index f827ef5..47b44b7 100644
--- a/engine/runtime/src/types/const_eq.rs
+++ b/engine/runtime/src/types/const_eq.rs
@@ -8,6 +8,11 @@ use libsodium_sys::sodium_memcmp;
 /// A trait for comparing types in Constant Time using [`sodium_memcmp`].
 pub trait ConstEq: ContiguousBytes {
     fn const_eq(&self, rhs: &Self) -> bool {
+        // slices may differ in their length
+        if self.as_bytes().len() != rhs.as_bytes().len() {
+            return false;
+        }
+
         unsafe {
             sodium_memcmp(
                 self.as_bytes().as_ptr() as *const _,
-- 
2.43.0


From 5266b2452881c6d10c37cf4c9722778787c33b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 28/32] fix: release a fragment that lies too close only once

---
 engine/runtime/src/memories/frag.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 715317b..d869850 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -127,7 +127,7 @@ impl<T: Default + Clone> Frag<T> {
 
         for _ in 0..MAX_RETRY_ATTEMPTS {
             let config = Some(FragConfig::new(a.ptr.as_ptr() as usize));
-            let mut b = match strategy {
+            let b = match strategy {
                 FragStrategy::Direct => DirectAlloc::alloc(config),
                 FragStrategy::Map => MemoryMapAlloc::alloc(config),
                 FragStrategy::Hybrid => MemoryMapAlloc::alloc(config),
@@ -141,7 +141,7 @@ impl<T: Default + Clone> Frag<T> {
                     b.ptr.as_ptr() as usize,
                     &a as *const _ as usize
                 );
-                Frag::dealloc(&mut b)?;
+                // dropping `b` releases its memory
                 continue;
             }
             info!("Mapped 2 fragments: at {:?} and {:?}", a.ptr, b.ptr);
-- 
2.43.0


From afc00e9b263855208e5837231b3bb5b1e250a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 29/32] fix: give the clone of a fragment memory of its own

---
 engine/runtime/src/memories/frag.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index d869850..e4cc96a 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -57,7 +57,6 @@ pub trait Alloc<T: Default + Clone> {
 
 /// Frag is being used as control object to load different allocators
 /// according to their strategy
-#[derive(Clone)]
 pub struct Frag<T: Default + Clone> {
     ptr: NonNull<T>,
     strategy: FragStrategy,
@@ -72,6 +71,25 @@ pub struct Frag<T: Default + Clone> {
     info: Option<(windows::Win32::Foundation::HANDLE, *const libc::c_void)>,
 }
 
+// A clone owns memory of its own: each fragment releases its memory when dropped
+impl<T: Default + Clone> Clone for Frag<T> {
+    fn clone(&self) -> Self {
+        let config = Some(FragConfig::new(self.ptr.as_ptr() as usize));
+        let mut frag = match self.strategy {
+            FragStrategy::Direct => DirectAlloc::alloc(config),
+            FragStrategy::Map => MemoryMapAlloc::alloc(config),
+            FragStrategy::Hybrid => unreachable!("Frag are allocated only using map or direct allocation"),
+        }
+        .expect("Error while allocating fragment memory");
+
+        match self.get() {
+            Ok(data) => unsafe { *frag.ptr.as_mut() = data.clone() },
+            Err(_) => frag.live = false,
+        }
+        frag
+    }
+}
+
 impl<T: Default + Clone> Zeroize for Frag<T> {
     fn zeroize(&mut self) {
         self.live = false;
-- 
2.43.0


From 2ce1c7e221047bc3900a5317c97ee08e6e6e3cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 30/32] fix: report failed (de)serialization of locked memory
 as an error

---
 engine/runtime/src/memories/noncontiguous_memory.rs | 13 ++++---------
 engine/runtime/src/memories/ram_memory.rs           | 11 ++++-------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/engine/runtime/src/memories/noncontiguous_memory.rs b/engine/runtime/src/memories/noncontiguous_memory.rs
index a7f7fab..7bdff7f 100644
--- a/engine/runtime/src/memories/noncontiguous_memory.rs
+++ b/engine/runtime/src/memories/noncontiguous_memory.rs
@@ -24,8 +24,8 @@ use crypto::hashes::{blake2b, Digest};
 use zeroize::Zeroize;
 
 use serde::{
-    de::{Deserialize, Deserializer, SeqAccess, Visitor},
-    ser::{Serialize, Serializer},
+    de::{Deserialize, Deserializer, Error as _, SeqAccess, Visitor},
+    ser::{Error as _, Serialize, Serializer},
 };
 
 use std::{cell::RefCell, sync::Mutex};
@@ -280,9 +280,7 @@ impl Serialize for NonContiguousMemory {
     where
         S: Serializer,
     {
-        let buf = self
-            .unlock()
-            .expect("Failed to unlock NonContiguousMemory for serialization");
+        let buf = self.unlock().map_err(S::Error::custom)?;
         buf.serialize(serializer)
     }
 }
@@ -314,10 +312,7 @@ impl<'de> Visitor<'de> for NonContiguousMemoryVisitor {
             seq.push(e);
         }
 
-        let seq = NonContiguousMemory::alloc(seq.as_slice(), seq.len(), NC_CONFIGURATION)
-            .expect("Failed to allocate NonContiguousMemory during deserialization");
-
-        Ok(seq)
+        NonContiguousMemory::alloc(seq.as_slice(), seq.len(), NC_CONFIGURATION).map_err(E::Error::custom)
     }
 }
 
diff --git a/engine/runtime/src/memories/ram_memory.rs b/engine/runtime/src/memories/ram_memory.rs
index 5ff1f87..12e41a2 100644
--- a/engine/runtime/src/memories/ram_memory.rs
+++ b/engine/runtime/src/memories/ram_memory.rs
@@ -14,8 +14,8 @@ use core::{
 use zeroize::Zeroize;
 
 use serde::{
-    de::{Deserialize, Deserializer, SeqAccess, Visitor},
-    ser::{Serialize, Serializer},
+    de::{Deserialize, Deserializer, Error as _, SeqAccess, Visitor},
+    ser::{Error as _, Serialize, Serializer},
 };
 
 /// Protected ram memory that may be encrypted or not
@@ -99,7 +99,7 @@ impl Serialize for RamMemory {
     where
         S: Serializer,
     {
-        let buf = self.unlock().expect("Failed to unlock RamMemory for serialization");
+        let buf = self.unlock().map_err(S::Error::custom)?;
         buf.serialize(serializer)
     }
 }
@@ -131,10 +131,7 @@ impl<'de> Visitor<'de> for RamMemoryVisitor {
             seq.push(e);
         }
 
-        let seq =
-            RamMemory::alloc(seq.as_slice(), seq.len()).expect("Failed to allocate RamMemory during deserialization");
-
-        Ok(seq)
+        RamMemory::alloc(seq.as_slice(), seq.len()).map_err(E::Error::custom)
     }
 }
 
-- 
2.43.0


From b5da7defbe3ae8bcac7333237e16506f8951788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 31/32] fix: give every transaction an id and a clock value of
 its own

increment_tx_ids and increment_clock added one and then read the counter
again, so two transactions that ran at the same time could get the same
value.
---
 stm/src/stm/stm.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/stm/src/stm/stm.rs b/stm/src/stm/stm.rs
index 38ec18c..acce48e 100644
--- a/stm/src/stm/stm.rs
+++ b/stm/src/stm/stm.rs
@@ -34,13 +34,11 @@ impl Stm {
     }
 
     pub fn increment_clock(&self) -> usize {
-        self.clock.fetch_add(1, Ordering::SeqCst);
-        self.clock.load(Ordering::SeqCst)
+        self.clock.fetch_add(1, Ordering::SeqCst) + 1
     }
 
     pub fn increment_tx_ids(&self) -> usize {
-        self.transaction_ids.fetch_add(1, Ordering::SeqCst);
-        self.transaction_ids.load(Ordering::SeqCst)
+        self.transaction_ids.fetch_add(1, Ordering::SeqCst) + 1
     }
 
     /// This runs a transaction with the given context. The TL2 algorithm makes
-- 
2.43.0


From a188fe67b93712456d71b61a3238011ddf5981e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 32/32] fix: commit a write guard although a read guard was
 opened after it

Opening a read guard marked the context as reading only, so a write guard
that was already open did not commit when it was dropped: the write was
lost.
---
 stm/src/rlu/guard/write.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stm/src/rlu/guard/write.rs b/stm/src/rlu/guard/write.rs
index f02ac1d..fd8f01f 100644
--- a/stm/src/rlu/guard/write.rs
+++ b/stm/src/rlu/guard/write.rs
@@ -127,6 +127,10 @@ where
         };
 
         info!("successfully written data to copy");
+
+        // a read guard that was opened in the meantime has reset this
+        self.context.set_writer();
+
         // end RLU section
         if let Err(err) = self.context.read_unlock() {
             let id = self.context.id.load(Ordering::SeqCst);
-- 
2.43.0

