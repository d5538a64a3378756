From 1d2463f0f44f43785fcb9077fbff0e3fc1befc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:16 +0000
Subject: [PATCH 01/46] fix: keep metadata in operations produced by the
 builders

The metadata added with add_metadata was type-checked and then dropped when
the genesis or the transition was completed.
---
 src/interface/builder.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index eb8a01c..b4affea 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -382,7 +382,7 @@ impl ContractBuilder {
     }
 
     fn issue_contract_raw(self, timestamp: i64) -> Result<ValidConsignment<false>, BuilderError> {
-        let (schema, iface, iimpl, global, assignments, types, asset_tags) =
+        let (schema, iface, iimpl, metadata, global, assignments, types, asset_tags) =
             self.builder.complete(None);
 
         let genesis = Genesis {
@@ -393,7 +393,7 @@ impl ContractBuilder {
             testnet: self.testnet,
             alt_layers1: self.alt_layers1,
             asset_tags,
-            metadata: empty!(),
+            metadata,
             globals: global,
             assignments,
             valencies: none!(),
@@ -800,14 +800,15 @@ impl TransitionBuilder {
     pub fn has_inputs(&self) -> bool { !self.inputs.is_empty() }
 
     pub fn complete_transition(self) -> Result<Transition, BuilderError> {
-        let (_, _, _, global, assignments, _, _) = self.builder.complete(Some(&self.inputs));
+        let (_, _, _, metadata, global, assignments, _, _) =
+            self.builder.complete(Some(&self.inputs));
 
         let transition = Transition {
             ffv: none!(),
             contract_id: self.contract_id,
             nonce: self.nonce,
             transition_type: self.transition_type,
-            metadata: empty!(),
+            metadata,
             globals: global,
             inputs: SmallOrdSet::from_iter_checked(self.inputs.into_keys()).into(),
             assignments,
@@ -1327,7 +1328,16 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
     fn complete(
         self,
         inputs: Option<&TinyOrdMap<Input, PersistedState>>,
-    ) -> (Schema, Iface, IfaceImpl, GlobalState, Assignments<Seal>, TypeSystem, AssetTags) {
+    ) -> (
+        Schema,
+        Iface,
+        IfaceImpl,
+        Metadata,
+        GlobalState,
+        Assignments<Seal>,
+        TypeSystem,
+        AssetTags,
+    ) {
         let owned_state = self.fungible.into_iter().map(|(id, vec)| {
             let mut blindings = Vec::with_capacity(vec.len());
             let mut vec = vec
@@ -1443,6 +1453,15 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             .extend(Assignments::from_inner(owned_attachments).into_inner())
             .expect("too many assignments");
 
-        (self.schema, self.iface, self.iimpl, self.global, assignments, self.types, self.asset_tags)
+        (
+            self.schema,
+            self.iface,
+            self.iimpl,
+            self.meta,
+            self.global,
+            assignments,
+            self.types,
+            self.asset_tags,
+        )
     }
 }
-- 
2.43.0


From 95c3061a08b615676cf336d098f7d81c4d25eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:16 +0000
Subject: [PATCH 02/46] fix: iterate contract global state in the consensus
 order

The global state was returned in the order of the storage keys, included
archived witnesses and repeated operations known under several witnesses.
Any of these made the state iterator panic.
---
 src/persistence/memory.rs | 61 ++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 4126daa..0a7818c 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -21,7 +21,7 @@
 
 use std::borrow::Borrow;
 use std::cmp::Ordering;
-use std::collections::{BTreeMap, BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
 use std::fmt::{Debug, Formatter};
 use std::num::NonZeroU32;
@@ -885,17 +885,10 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             depth: u24,
             constructor: Box<dyn Fn(Src<'a>) -> FilteredIter<'a> + 'a>,
         }
-        impl<'a> Iter<'a> {
-            fn swap(&mut self) -> FilteredIter<'a> {
-                let mut iter = (self.constructor)(self.src);
-                mem::swap(&mut iter, &mut self.iter);
-                iter
-            }
-        }
         impl<'a> GlobalStateIter for Iter<'a> {
             type Data = &'a DataState;
             fn size(&mut self) -> u24 {
-                let iter = self.swap();
+                let iter = (self.constructor)(self.src);
                 // TODO: Consuming iterator just to count items is highly inefficient, but I do
                 //       not know any other way of computing this value
                 let size = iter.count();
@@ -912,14 +905,15 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
                     Ordering::Less => {
                         let mut iter = Box::new(iter::empty()) as FilteredIter;
                         mem::swap(&mut self.iter, &mut iter);
-                        self.iter = Box::new(iter.skip(depth.to_usize() - depth.to_usize()))
+                        self.iter = Box::new(iter.skip(depth.to_usize() - self.depth.to_usize()))
                     }
                     Ordering::Equal => {}
                     Ordering::Greater => {
-                        let iter = self.swap();
+                        let iter = (self.constructor)(self.src);
                         self.iter = Box::new(iter.skip(depth.to_usize()));
                     }
                 }
+                self.depth = depth;
             }
         }
         // We need this due to the limitations of the rust compiler to enforce lifetimes
@@ -934,25 +928,32 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             .ok_or(UnknownGlobalStateType(ty))?;
 
         let constructor = constrained(move |src: Src<'_>| -> FilteredIter<'_> {
-            Box::new(
-                src.iter()
-                    .rev()
-                    .filter_map(|(out, data)| {
-                        let ord = match out.op_witness {
-                            OpWitness::Genesis => GlobalOrd::genesis(out.index),
-                            OpWitness::Transition(id, ty) => {
-                                let ord = self.filter.get(&id)?;
-                                GlobalOrd::transition(out.opid, out.index, ty, out.nonce, *ord)
-                            }
-                            OpWitness::Extension(id, ty) => {
-                                let ord = self.filter.get(&id)?;
-                                GlobalOrd::extension(out.opid, out.index, ty, out.nonce, *ord)
-                            }
-                        };
-                        Some((ord, data))
-                    })
-                    .take(state.limit.to_usize()),
-            )
+            let mut items = src
+                .iter()
+                .filter_map(|(out, data)| {
+                    let ord = match out.op_witness {
+                        OpWitness::Genesis => GlobalOrd::genesis(out.index),
+                        OpWitness::Transition(id, ty) => {
+                            let ord = self.filter.get(&id).filter(|ord| ord.is_valid())?;
+                            GlobalOrd::transition(out.opid, out.index, ty, out.nonce, *ord)
+                        }
+                        OpWitness::Extension(id, ty) => {
+                            let ord = self.filter.get(&id).filter(|ord| ord.is_valid())?;
+                            GlobalOrd::extension(out.opid, out.index, ty, out.nonce, *ord)
+                        }
+                    };
+                    Some((ord, out, data))
+                })
+                .collect::<Vec<_>>();
+            // The state must follow the consensus ordering, which is not the ordering of the
+            // storage
+            items.sort_by_key(|(ord, _, _)| *ord);
+            // The same operation may be known under several valid witnesses
+            let mut known = HashSet::new();
+            items.retain(|(_, out, _)| known.insert((out.opid, out.index)));
+            // Only the most recent state must be kept
+            let excess = items.len().saturating_sub(state.limit.to_usize());
+            Box::new(items.into_iter().skip(excess).map(|(ord, _, data)| (ord, data)))
         });
         let iter = Iter {
             src: state.known.as_unconfined(),
-- 
2.43.0


From 6f89de3f802fc66e84c6bb9ad9332157a273fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:59 +0000
Subject: [PATCH 03/46] fix: do not count failed witness updates as succeeded

---
 src/persistence/memory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 0a7818c..7be60df 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -664,12 +664,14 @@ impl StateWriteProvider for MemState {
                 continue;
             }
             match resolver.resolve_pub_witness_ord(*id) {
-                Ok(new) => *ord = new,
+                Ok(new) => {
+                    *ord = new;
+                    succeeded += 1;
+                }
                 Err(err) => {
                     failed.insert(*id, err.to_string());
                 }
             }
-            succeeded += 1;
         }
         let mut witnesses =
             LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
-- 
2.43.0


From d397ad2c4ca2a4bf02b51713720cd551450d590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:59 +0000
Subject: [PATCH 04/46] fix: refuse implementations of unknown schemata and
 interfaces

Importing a kit or a consignment with such an implementation panicked inside
of the stash provider.
---
 src/persistence/stash.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index c42764e..440b663 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -455,6 +455,9 @@ impl<P: StashProvider> Stash<P> {
                 .map_err(StashError::WriteProvider)?;
         }
         for iimpl in kit.iimpls {
+            // The provider requires both to be known
+            self.schema(iimpl.schema_id)?;
+            self.iface(iimpl.iface_id)?;
             self.provider
                 .replace_iimpl(iimpl)
                 .map_err(StashError::WriteProvider)?;
-- 
2.43.0


From 8f11a79cc482b8cac74a0faa15f3019b3c720c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:51 +0000
Subject: [PATCH 05/46] fix: report state re-anchored by another witness
 transaction

An assignment known under one witness was not registered again when the same
operation was anchored by a different transaction, so the state was lost once
the first witness got archived. Keep both and report the assignment once.
---
 src/contract/assignments.rs | 18 +++++++++++++-----
 src/persistence/memory.rs   | 18 ++++++++++++++++++
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/contract/assignments.rs b/src/contract/assignments.rs
index d496752..a4b7fab 100644
--- a/src/contract/assignments.rs
+++ b/src/contract/assignments.rs
@@ -100,11 +100,16 @@ pub struct OutputAssignment<State: KnownState> {
 
 impl<State: KnownState> PartialEq for OutputAssignment<State> {
     fn eq(&self, other: &Self) -> bool {
-        // We ignore difference in witness transactions, state and seal definitions here
-        // in order to support updates from the ephemeral state of the lightning
-        // channels. See <https://github.com/RGB-WG/rgb-std/issues/238#issuecomment-2283822128>
+        // We ignore difference in state definitions here in order to support updates from
+        // the ephemeral state of the lightning channels.
+        // See <https://github.com/RGB-WG/rgb-std/issues/238#issuecomment-2283822128>
         // for the details.
-        let res = self.opout == other.opout && self.seal == other.seal;
+        // The same operation may be re-anchored by a different witness transaction, with
+        // only one of them being valid at a time. Thus, we have to distinguish assignments
+        // by the witness.
+        let res = self.opout == other.opout
+            && self.seal == other.seal
+            && self.witness == other.witness;
         #[cfg(debug_assertions)]
         if res {
             debug_assert_eq!(self.state, other.state);
@@ -123,7 +128,10 @@ impl<State: KnownState> Ord for OutputAssignment<State> {
             return Ordering::Equal;
         }
         match self.opout.cmp(&other.opout) {
-            Ordering::Equal => self.seal.cmp(&other.seal),
+            Ordering::Equal => self
+                .seal
+                .cmp(&other.seal)
+                .then_with(|| self.witness.cmp(&other.witness)),
             ordering => ordering,
         }
     }
diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 7be60df..2b667a4 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -873,6 +873,16 @@ impl<M: Borrow<MemContractState>> Debug for MemContract<M> {
     }
 }
 
+/// Skips repetitions of the same assignment known under several valid witnesses, which are always
+/// neighbours in the ordered set.
+fn distinct<State: KnownState>() -> impl FnMut(&&OutputAssignment<State>) -> bool {
+    let mut last = None;
+    move |assignment| {
+        let id = (assignment.opout, assignment.seal);
+        last.replace(id) != Some(id)
+    }
+}
+
 impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
     fn global(
         &self,
@@ -976,6 +986,7 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
                 assignment.seal.to_outpoint() == outpoint && assignment.opout.ty == ty
             })
             .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(distinct())
             .count() as u32
     }
 
@@ -992,6 +1003,7 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
                 assignment.seal.to_outpoint() == outpoint && assignment.opout.ty == ty
             })
             .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(distinct())
             .map(|assignment| assignment.state.value)
     }
 
@@ -1008,6 +1020,7 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
                 assignment.seal.to_outpoint() == outpoint && assignment.opout.ty == ty
             })
             .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(distinct())
             .map(|assignment| &assignment.state.value)
     }
 
@@ -1024,6 +1037,7 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
                 assignment.seal.to_outpoint() == outpoint && assignment.opout.ty == ty
             })
             .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(distinct())
             .map(|assignment| &assignment.state.file)
     }
 }
@@ -1097,6 +1111,7 @@ impl<M: Borrow<MemContractState>> ContractStateRead for MemContract<M> {
             .rights
             .iter()
             .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(distinct())
     }
 
     #[inline]
@@ -1106,6 +1121,7 @@ impl<M: Borrow<MemContractState>> ContractStateRead for MemContract<M> {
             .fungibles
             .iter()
             .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(distinct())
     }
 
     #[inline]
@@ -1115,6 +1131,7 @@ impl<M: Borrow<MemContractState>> ContractStateRead for MemContract<M> {
             .data
             .iter()
             .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(distinct())
     }
 
     #[inline]
@@ -1124,6 +1141,7 @@ impl<M: Borrow<MemContractState>> ContractStateRead for MemContract<M> {
             .attach
             .iter()
             .filter(|assignment| assignment.check_witness(&self.filter))
+            .filter(distinct())
     }
 }
 
-- 
2.43.0


From d7f0b7fc3bfd9c80373bd420df7f5a672406c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:51 +0000
Subject: [PATCH 06/46] fix: write the stock on an explicit store when autosave
 is off

Whether an object has unsaved changes was judged by the autosave flag, so
neither storing nor making a stock persistent without autosave wrote anything.
---
 src/persistence/memory.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 2b667a4..4cedb53 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -155,6 +155,8 @@ impl Persisting for MemStash {
     #[inline]
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
+    fn is_dirty(&self) -> bool { self.persistence().map(|p| p.dirty || p.autosave).unwrap_or(true) }
+    #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
 }
 
@@ -166,7 +168,12 @@ impl StoreTransaction for MemStash {
         Ok(())
     }
     #[inline]
-    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
+    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        if self.is_autosave() {
+            self.store()?;
+        }
+        Ok(())
+    }
     #[inline]
     fn rollback_transaction(&mut self) { unreachable!() }
 }
@@ -526,6 +533,8 @@ impl Persisting for MemState {
     #[inline]
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
+    fn is_dirty(&self) -> bool { self.persistence().map(|p| p.dirty || p.autosave).unwrap_or(true) }
+    #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
 }
 
@@ -537,7 +546,12 @@ impl StoreTransaction for MemState {
         Ok(())
     }
     #[inline]
-    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
+    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        if self.is_autosave() {
+            self.store()?;
+        }
+        Ok(())
+    }
     #[inline]
     fn rollback_transaction(&mut self) { unreachable!() }
 }
@@ -1271,6 +1285,8 @@ impl Persisting for MemIndex {
     #[inline]
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
+    fn is_dirty(&self) -> bool { self.persistence().map(|p| p.dirty || p.autosave).unwrap_or(true) }
+    #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
 }
 
@@ -1282,7 +1298,12 @@ impl StoreTransaction for MemIndex {
         Ok(())
     }
     #[inline]
-    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
+    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        if self.is_autosave() {
+            self.store()?;
+        }
+        Ok(())
+    }
     #[inline]
     fn rollback_transaction(&mut self) { unreachable!() }
 }
-- 
2.43.0


From fa16c55a2659e8ea68951b6fdda10ef0f2ea06aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:09 +0000
Subject: [PATCH 07/46] fix: roll back a stock operation which fails

A failed import, transfer, update or secret seal storage left the stock with a
part of the changes, or panicked trying to roll back. Keep the previous data
for the duration of a transaction and restore it on any failure.
---
 src/persistence/memory.rs | 48 +++++++++++++++++++++++++++++++++++----
 src/persistence/stash.rs  |  3 ++-
 src/persistence/stock.rs  | 14 ++++++------
 3 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 4cedb53..5a8df9a 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -88,6 +88,9 @@ pub struct MemStash {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    #[getter(skip)]
+    #[strict_type(skip)]
+    snapshot: Option<Box<Self>>,
 
     schemata: TinyOrdMap<SchemaId, SchemaIfaces>,
     ifaces: TinyOrdMap<IfaceId, Iface>,
@@ -111,6 +114,7 @@ impl MemStash {
     pub fn in_memory() -> Self {
         Self {
             persistence: none!(),
+            snapshot: None,
             schemata: empty!(),
             ifaces: empty!(),
             geneses: empty!(),
@@ -132,6 +136,7 @@ impl CloneNoPersistence for MemStash {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            snapshot: None,
             schemata: self.schemata.clone(),
             ifaces: self.ifaces.clone(),
             geneses: self.geneses.clone(),
@@ -164,6 +169,7 @@ impl StoreTransaction for MemStash {
     type TransactionErr = MemError;
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        self.snapshot = Some(Box::new(self.clone_no_persistence()));
         self.mark_dirty();
         Ok(())
     }
@@ -175,7 +181,14 @@ impl StoreTransaction for MemStash {
         Ok(())
     }
     #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        if let Some(snapshot) = self.snapshot.take() {
+            let persistence = self.persistence.take();
+            *self = *snapshot;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl StashProvider for MemStash {}
@@ -499,6 +512,9 @@ pub struct MemState {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    #[getter(skip)]
+    #[strict_type(skip)]
+    snapshot: Option<Box<Self>>,
 
     witnesses: LargeOrdMap<XWitnessId, WitnessOrd>,
     contracts: TinyOrdMap<ContractId, MemContractState>,
@@ -511,6 +527,7 @@ impl MemState {
     pub fn in_memory() -> Self {
         Self {
             persistence: none!(),
+            snapshot: None,
             witnesses: empty!(),
             contracts: empty!(),
         }
@@ -521,6 +538,7 @@ impl CloneNoPersistence for MemState {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            snapshot: None,
             witnesses: self.witnesses.clone(),
             contracts: self.contracts.clone(),
         }
@@ -542,6 +560,7 @@ impl StoreTransaction for MemState {
     type TransactionErr = MemError;
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        self.snapshot = Some(Box::new(self.clone_no_persistence()));
         self.mark_dirty();
         Ok(())
     }
@@ -553,7 +572,14 @@ impl StoreTransaction for MemState {
         Ok(())
     }
     #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        if let Some(snapshot) = self.snapshot.take() {
+            let persistence = self.persistence.take();
+            *self = *snapshot;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl StateProvider for MemState {}
@@ -690,7 +716,8 @@ impl StateWriteProvider for MemState {
         let mut witnesses =
             LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
         mem::swap(&mut self.witnesses, &mut witnesses);
-        self.commit_transaction()?;
+        self.commit_transaction()
+            .inspect_err(|_| self.rollback_transaction())?;
         Ok(UpdateRes { succeeded, failed })
     }
 }
@@ -1242,6 +1269,9 @@ pub struct MemIndex {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    #[getter(skip)]
+    #[strict_type(skip)]
+    snapshot: Option<Box<Self>>,
 
     op_bundle_index: MediumOrdMap<OpId, BundleId>,
     bundle_contract_index: MediumOrdMap<BundleId, ContractId>,
@@ -1257,6 +1287,7 @@ impl MemIndex {
     pub fn in_memory() -> Self {
         Self {
             persistence: None,
+            snapshot: None,
             op_bundle_index: empty!(),
             bundle_contract_index: empty!(),
             bundle_witness_index: empty!(),
@@ -1270,6 +1301,7 @@ impl CloneNoPersistence for MemIndex {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            snapshot: None,
             op_bundle_index: self.op_bundle_index.clone(),
             bundle_contract_index: self.bundle_contract_index.clone(),
             bundle_witness_index: self.bundle_witness_index.clone(),
@@ -1294,6 +1326,7 @@ impl StoreTransaction for MemIndex {
     type TransactionErr = MemError;
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        self.snapshot = Some(Box::new(self.clone_no_persistence()));
         self.mark_dirty();
         Ok(())
     }
@@ -1305,7 +1338,14 @@ impl StoreTransaction for MemIndex {
         Ok(())
     }
     #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        if let Some(snapshot) = self.snapshot.take() {
+            let persistence = self.persistence.take();
+            *self = *snapshot;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl IndexProvider for MemIndex {}
diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 440b663..421440c 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -685,7 +685,8 @@ impl<P: StashProvider> Stash<P> {
             .add_secret_seal(seal)
             .inspect_err(|_| self.rollback_transaction())
             .map_err(StashError::WriteProvider)?;
-        self.commit_transaction()?;
+        self.commit_transaction()
+            .inspect_err(|_| self.rollback_transaction())?;
         Ok(seal)
     }
 }
diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index b43427e..f852dc2 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1257,15 +1257,13 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         self.state.begin_transaction()?;
         self.stash
             .begin_transaction()
-            .inspect_err(|_| self.stash.rollback_transaction())?;
+            .inspect_err(|_| self.state.rollback_transaction())?;
         self.index.begin_transaction().inspect_err(|_| {
             self.state.rollback_transaction();
             self.stash.rollback_transaction();
         })?;
-        f(&mut self.stash, &mut self.state, &mut self.index)?;
-        self.index
-            .commit_transaction()
-            .map_err(StockError::from)
+        f(&mut self.stash, &mut self.state, &mut self.index)
+            .and_then(|_| self.index.commit_transaction().map_err(StockError::from))
             .and_then(|_| self.state.commit_transaction().map_err(StockError::from))
             .and_then(|_| self.stash.commit_transaction().map_err(StockError::from))
             .inspect_err(|_| {
@@ -1278,8 +1276,10 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
     pub fn import_kit(&mut self, kit: ValidKit) -> Result<validation::Status, StockError<S, H, P>> {
         let (kit, status) = kit.split();
         self.stash.begin_transaction()?;
-        self.stash.consume_kit(kit)?;
-        self.stash.commit_transaction()?;
+        self.stash
+            .consume_kit(kit)
+            .and_then(|_| self.stash.commit_transaction())
+            .inspect_err(|_| self.stash.rollback_transaction())?;
         Ok(status)
     }
 
-- 
2.43.0


From 2dd1ae0248c3ba20d9395f50f748617ed04db567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:26 +0000
Subject: [PATCH 08/46] fix: replace storage files atomically

Storing truncated the file before writing it, so a crash or a full disk lost
the data saved before. Write to a temporary file and rename it.
---
 src/persistence/fs.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/persistence/fs.rs b/src/persistence/fs.rs
index 600cb21..43c8751 100644
--- a/src/persistence/fs.rs
+++ b/src/persistence/fs.rs
@@ -19,12 +19,12 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::{fs, io};
 
 use amplify::confinement::U32 as U32MAX;
 use nonasync::persistence::{PersistenceError, PersistenceProvider};
-use strict_encoding::{StrictDeserialize, StrictSerialize};
+use strict_encoding::{SerializeError, StrictDeserialize, StrictSerialize};
 
 use crate::persistence::{MemIndex, MemStash, MemState};
 
@@ -53,6 +53,21 @@ impl FsBinStore {
         })
     }
 }
+
+/// Replaces the file only once the new version is completely written to the
+/// disk, such that a failure or a crash can't damage the previous one.
+fn store_atomic(object: &impl StrictSerialize, path: &Path) -> Result<(), SerializeError> {
+    let tmp = path.with_extension("tmp");
+    object.strict_serialize_to_file::<U32MAX>(&tmp)?;
+    fs::File::open(&tmp)?.sync_all()?;
+    fs::rename(&tmp, path)?;
+    #[cfg(unix)]
+    if let Some(dir) = path.parent() {
+        fs::File::open(dir)?.sync_all()?;
+    }
+    Ok(())
+}
+
 impl PersistenceProvider<MemStash> for FsBinStore {
     fn load(&self) -> Result<MemStash, PersistenceError> {
         MemStash::strict_deserialize_from_file::<U32MAX>(&self.stash)
@@ -60,9 +75,7 @@ impl PersistenceProvider<MemStash> for FsBinStore {
     }
 
     fn store(&self, object: &MemStash) -> Result<(), PersistenceError> {
-        object
-            .strict_serialize_to_file::<U32MAX>(&self.stash)
-            .map_err(PersistenceError::with)
+        store_atomic(object, &self.stash).map_err(PersistenceError::with)
     }
 }
 
@@ -73,9 +86,7 @@ impl PersistenceProvider<MemState> for FsBinStore {
     }
 
     fn store(&self, object: &MemState) -> Result<(), PersistenceError> {
-        object
-            .strict_serialize_to_file::<U32MAX>(&self.state)
-            .map_err(PersistenceError::with)
+        store_atomic(object, &self.state).map_err(PersistenceError::with)
     }
 }
 
@@ -86,8 +97,6 @@ impl PersistenceProvider<MemIndex> for FsBinStore {
     }
 
     fn store(&self, object: &MemIndex) -> Result<(), PersistenceError> {
-        object
-            .strict_serialize_to_file::<U32MAX>(&self.index)
-            .map_err(PersistenceError::with)
+        store_atomic(object, &self.index).map_err(PersistenceError::with)
     }
 }
-- 
2.43.0


From bae179ef193c34ec1f5758a964c1c55c74cc380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:50 +0000
Subject: [PATCH 09/46] fix: look up all seals defined on an outpoint

Only the first of the seals sharing an outpoint was found, so a transfer could
miss state. A contract was also listed several times when it assigned state to
several of the requested outpoints.
---
 src/persistence/memory.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 5a8df9a..21cc94d 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1360,19 +1360,13 @@ impl IndexReadProvider for MemIndex {
         Ok(self
             .contract_index
             .iter()
-            .flat_map(move |(contract_id, index)| {
-                outpoints.clone().into_iter().filter_map(|outpoint| {
-                    if index
-                        .outpoint_opouts
-                        .keys()
-                        .any(|seal| seal.to_outpoint() == outpoint)
-                    {
-                        Some(*contract_id)
-                    } else {
-                        None
-                    }
-                })
-            }))
+            .filter(move |(_, index)| {
+                index
+                    .outpoint_opouts
+                    .keys()
+                    .any(|seal| outpoints.contains(&seal.to_outpoint()))
+            })
+            .map(|(contract_id, _)| *contract_id))
     }
 
     fn public_opouts(
@@ -1397,13 +1391,17 @@ impl IndexReadProvider for MemIndex {
             .ok_or(IndexInconsistency::ContractAbsent(contract_id))?;
         let mut opouts = BTreeSet::new();
         for output in outpoints.into_iter().map(|o| o.into()) {
-            let set = index
+            // The same outpoint may be used by seals with different closing methods
+            let mut sets = index
                 .outpoint_opouts
                 .iter()
-                .find(|(seal, _)| seal.to_outpoint() == output)
-                .map(|(_, set)| set.to_unconfined())
-                .ok_or(IndexInconsistency::OutpointUnknown(output, contract_id))?;
-            opouts.extend(set)
+                .filter(|(seal, _)| seal.to_outpoint() == output)
+                .map(|(_, set)| set)
+                .peekable();
+            if sets.peek().is_none() {
+                return Err(IndexInconsistency::OutpointUnknown(output, contract_id).into());
+            }
+            opouts.extend(sets.flatten().copied())
         }
         Ok(opouts)
     }
-- 
2.43.0


From 9b2dc6f31742f02857b94357c85eadd3e7375136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:42 +0000
Subject: [PATCH 10/46] fix: merge a known witness transaction with its id

Merging succeeded only when the id came first, and failed for a witness which
is already known with the whole transaction.
---
 src/containers/anchors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/containers/anchors.rs b/src/containers/anchors.rs
index 2c7c167..b608044 100644
--- a/src/containers/anchors.rs
+++ b/src/containers/anchors.rs
@@ -154,7 +154,7 @@ impl PubWitness {
     pub fn merge_reveal(self, other: Self) -> Result<Self, MergeRevealError> {
         match (self, other) {
             (Self::Txid(txid1), Self::Txid(txid2)) if txid1 == txid2 => Ok(Self::Txid(txid1)),
-            (Self::Txid(txid), Self::Tx(tx)) | (Self::Txid(txid), Self::Tx(tx))
+            (Self::Txid(txid), Self::Tx(tx)) | (Self::Tx(tx), Self::Txid(txid))
                 if txid == tx.txid() =>
             {
                 Ok(Self::Tx(tx))
-- 
2.43.0


From b3fae310d0b62e3114007439340525a0e5b5bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:42 +0000
Subject: [PATCH 11/46] fix: keep transitions known only from the other bundle
 on merge

A bundle known with a part of its transitions never learned the rest of them
from the later consignments.
---
 src/contract/merge_reveal.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/contract/merge_reveal.rs b/src/contract/merge_reveal.rs
index b662f5a..d97f812 100644
--- a/src/contract/merge_reveal.rs
+++ b/src/contract/merge_reveal.rs
@@ -220,16 +220,17 @@ impl MergeReveal for TransitionBundle {
 
         let mut self_transitions = self.known_transitions.release();
         for (opid, other_transition) in other.known_transitions {
-            if let Some(mut transition) = self_transitions.remove(&opid) {
-                transition = transition.merge_reveal(other_transition)?;
-                self_transitions.insert(opid, transition);
-            }
+            let transition = match self_transitions.remove(&opid) {
+                Some(transition) => transition.merge_reveal(other_transition)?,
+                None => other_transition,
+            };
+            self_transitions.insert(opid, transition);
         }
-        self.known_transitions = Confined::from_checked(self_transitions);
 
-        if self.input_map.len() < self.known_transitions.len() {
+        if self.input_map.len() < self_transitions.len() {
             return Err(MergeRevealError::InsufficientInputs);
         }
+        self.known_transitions = Confined::from_checked(self_transitions);
         Ok(self)
     }
 }
-- 
2.43.0


From e9430aea373ab41159f63a5ee6d71c2b881ef0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:08 +0000
Subject: [PATCH 12/46] fix: keep the transition ids of a batch in step with
 its priority

Setting the priority changes the transitions, while the ids were left as they
were before.
---
 src/containers/partials.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/containers/partials.rs b/src/containers/partials.rs
index 8bdf33d..a0b972c 100644
--- a/src/containers/partials.rs
+++ b/src/containers/partials.rs
@@ -181,6 +181,12 @@ impl TransitionInfo {
             method,
         })
     }
+
+    /// Changes the nonce, and thus the id, of the transition.
+    pub fn set_nonce(&mut self, nonce: u64) {
+        self.transition.nonce = nonce;
+        self.id = self.transition.id();
+    }
 }
 
 #[derive(Copy, Clone, Eq, PartialEq, Debug, Display, Error)]
@@ -244,14 +250,14 @@ impl Batch {
     }
 
     pub fn set_priority(&mut self, priority: u64) {
-        self.main.first.transition.nonce = priority;
+        self.main.first.set_nonce(priority);
         if let Some(info) = &mut self.main.second {
-            info.transition.nonce = priority;
+            info.set_nonce(priority);
         }
         for info in &mut self.blanks {
-            info.first.transition.nonce = priority;
+            info.first.set_nonce(priority);
             if let Some(info) = &mut info.second {
-                info.transition.nonce = priority;
+                info.set_nonce(priority);
             }
         }
     }
-- 
2.43.0


From 952ccb83586346469f8256225a20f3cc5c27455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:09 +0000
Subject: [PATCH 13/46] fix: do not panic on genesis allocations in the
 contract history

The history panicked for any witness filter accepting allocations which have
no witness transaction.
---
 src/interface/contract.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interface/contract.rs b/src/interface/contract.rs
index 2709a05..cba6a0f 100644
--- a/src/interface/contract.rs
+++ b/src/interface/contract.rs
@@ -408,12 +408,12 @@ impl<S: ContractStateRead> ContractIface<S> {
         let mut allocations_our_witness = state(&self.state)
             .filter(move |outp| filter_witnesses.should_include(outp.seal, outp.witness))
             .fold(HashMap::<_, HashSet<_>>::new(), |mut map, a| {
-                let witness = a.witness.expect(
-                    "all empty witnesses must be already filtered out by wallet.filter_witness()",
-                );
-                map.entry(witness)
-                    .or_default()
-                    .insert(a.clone().transmute::<AllocatedState>());
+                // Genesis allocations have no witness transaction
+                if let Some(witness) = a.witness {
+                    map.entry(witness)
+                        .or_default()
+                        .insert(a.clone().transmute::<AllocatedState>());
+                }
                 map
             });
 
-- 
2.43.0


From f7aab633a5465a5062fa2f95c1b45a179810040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:11 +0000
Subject: [PATCH 14/46] fix: keep fungible state types apart in the contract
 history

The history panicked when the same transaction assigned fungible state of two
types, since their amounts were to be added up.
---
 src/interface/contract.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/interface/contract.rs b/src/interface/contract.rs
index cba6a0f..18a0191 100644
--- a/src/interface/contract.rs
+++ b/src/interface/contract.rs
@@ -20,7 +20,7 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 use invoice::{Allocation, Amount};
 use rgb::{
@@ -134,6 +134,18 @@ fn reduce_to_ty(allocations: impl IntoIterator<Item = OwnedAllocation>) -> Assig
         .expect("empty list of allocations")
 }
 
+fn by_type(
+    allocations: HashSet<OwnedAllocation>,
+) -> impl Iterator<Item = HashSet<OwnedAllocation>> {
+    let mut map = BTreeMap::<_, HashSet<_>>::new();
+    for allocation in allocations {
+        map.entry(allocation.opout.ty)
+            .or_default()
+            .insert(allocation);
+    }
+    map.into_values()
+}
+
 impl ContractOp {
     fn non_fungible_genesis(
         our_allocations: HashSet<OwnedAllocation>,
@@ -429,7 +441,7 @@ impl<S: ContractStateRead> ContractIface<S> {
         // add allocations with no witness to the beginning of the history
         if let Some(genesis_allocations) = allocations_our_outpoint.remove(&None) {
             if T::IS_FUNGIBLE {
-                ops.push(ContractOp::fungible_genesis(genesis_allocations));
+                ops.extend(by_type(genesis_allocations).map(ContractOp::fungible_genesis));
             } else {
                 ops.extend(ContractOp::non_fungible_genesis(genesis_allocations));
             }
@@ -455,7 +467,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                         continue;
                     }
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        ops.extend(
+                            by_type(ext_allocations)
+                                .map(|a| ContractOp::fungible_sent(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -463,7 +478,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // the same as above, but the payment has no change
                 (None, Some(ext_allocations)) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        ops.extend(
+                            by_type(ext_allocations)
+                                .map(|a| ContractOp::fungible_sent(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -472,7 +490,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // this is an incoming payment to us.
                 (Some(our_allocations), None) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_received(witness_info, our_allocations))
+                        ops.extend(
+                            by_type(our_allocations)
+                                .map(|a| ContractOp::fungible_received(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_received(witness_info, our_allocations))
                     }
-- 
2.43.0


From 051068aa78e557a0b0e6afe2ee3b84647ab79976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:29 +0000
Subject: [PATCH 15/46] fix: refuse to assign state twice to the same seal in a
 builder

The second state replaced the first one, which got lost without a notice.
---
 src/interface/builder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index b4affea..fbd7049 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -92,6 +92,9 @@ pub enum BuilderError {
     /// interface doesn't have a default assignment type.
     NoDefaultAssignment,
 
+    /// state of type {0} is already assigned to the same seal.
+    RepeatedSeal(AssignmentType),
+
     /// {0} is not supported by the contract genesis.
     InvalidLayer1(Layer1),
 
@@ -1114,6 +1117,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         let seal = seal.into();
         match self.rights.get_mut(&type_id) {
             Some(assignments) => {
+                if assignments.contains(&seal) {
+                    return Err(BuilderError::RepeatedSeal(type_id));
+                }
                 assignments.push(seal)?;
             }
             None => {
@@ -1180,6 +1186,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         let seal = seal.into();
         match self.fungible.get_mut(&type_id) {
             Some(assignments) => {
+                if assignments.contains_key(&seal) {
+                    return Err(BuilderError::RepeatedSeal(type_id));
+                }
                 assignments.insert(seal, state)?;
             }
             None => {
@@ -1244,6 +1253,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.data.get_mut(&type_id) {
                 Some(assignments) => {
+                    if assignments.contains_key(&seal) {
+                        return Err(BuilderError::RepeatedSeal(type_id));
+                    }
                     assignments.insert(seal, state)?;
                 }
                 None => {
@@ -1312,6 +1324,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.attachments.get_mut(&type_id) {
                 Some(assignments) => {
+                    if assignments.contains_key(&seal) {
+                        return Err(BuilderError::RepeatedSeal(type_id));
+                    }
                     assignments.insert(seal, state)?;
                 }
                 None => {
-- 
2.43.0


From 1968fe9de179e1e623ff790e410e17da60e6cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:31 +0000
Subject: [PATCH 16/46] fix: put rights into an operation in a defined order

The order was the one of a hash set, thus the id of the same operation differed
from run to run.
---
 src/interface/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index fbd7049..67238f7 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -21,7 +21,7 @@
 
 #![allow(clippy::result_large_err)]
 
-use std::collections::{BTreeMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet};
 
 use amplify::confinement::{Confined, SmallOrdSet, TinyOrdMap, U16};
 use amplify::{confinement, Wrapper};
@@ -837,7 +837,7 @@ pub struct OperationBuilder<Seal: ExposedSeal> {
 
     global: GlobalState,
     meta: Metadata,
-    rights: TinyOrdMap<AssignmentType, Confined<HashSet<BuilderSeal<Seal>>, 1, U16>>,
+    rights: TinyOrdMap<AssignmentType, Confined<BTreeSet<BuilderSeal<Seal>>, 1, U16>>,
     fungible:
         TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedValue>, 1, U16>>,
     data: TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedData>, 1, U16>>,
-- 
2.43.0


From 04680d11dc4bfcc3fbb3375c622b929a4350564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:33 +0000
Subject: [PATCH 17/46] fix: return an error when an operation can't be
 completed

Builders were panicking when blinding factors can't be balanced, or when the
state of an input doesn't match its type.
---
 src/interface/builder.rs | 54 ++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index 67238f7..eb4db6b 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -95,6 +95,13 @@ pub enum BuilderError {
     /// state of type {0} is already assigned to the same seal.
     RepeatedSeal(AssignmentType),
 
+    /// input of type {0} has non-fungible state, while the operation assigns
+    /// fungible state of that type.
+    InvalidInputState(AssignmentType),
+
+    /// blinding factors of the state of type {0} can't be balanced.
+    UnbalancedBlinding(AssignmentType),
+
     /// {0} is not supported by the contract genesis.
     InvalidLayer1(Layer1),
 
@@ -386,7 +393,7 @@ impl ContractBuilder {
 
     fn issue_contract_raw(self, timestamp: i64) -> Result<ValidConsignment<false>, BuilderError> {
         let (schema, iface, iimpl, metadata, global, assignments, types, asset_tags) =
-            self.builder.complete(None);
+            self.builder.complete(None)?;
 
         let genesis = Genesis {
             ffv: none!(),
@@ -804,7 +811,7 @@ impl TransitionBuilder {
 
     pub fn complete_transition(self) -> Result<Transition, BuilderError> {
         let (_, _, _, metadata, global, assignments, _, _) =
-            self.builder.complete(Some(&self.inputs));
+            self.builder.complete(Some(&self.inputs))?;
 
         let transition = Transition {
             ffv: none!(),
@@ -1340,19 +1347,23 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         Ok(self)
     }
 
+    #[allow(clippy::type_complexity)]
     fn complete(
         self,
         inputs: Option<&TinyOrdMap<Input, PersistedState>>,
-    ) -> (
-        Schema,
-        Iface,
-        IfaceImpl,
-        Metadata,
-        GlobalState,
-        Assignments<Seal>,
-        TypeSystem,
-        AssetTags,
-    ) {
+    ) -> Result<
+        (
+            Schema,
+            Iface,
+            IfaceImpl,
+            Metadata,
+            GlobalState,
+            Assignments<Seal>,
+            TypeSystem,
+            AssetTags,
+        ),
+        BuilderError,
+    > {
         let owned_state = self.fungible.into_iter().map(|(id, vec)| {
             let mut blindings = Vec::with_capacity(vec.len());
             let mut vec = vec
@@ -1383,23 +1394,24 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
                         i.iter()
                             .filter(|(out, _)| out.prev_out.ty == id)
                             .map(|(_, ts)| match ts {
-                                PersistedState::Amount(_, blinding, _) => *blinding,
-                                _ => panic!("previous state has invalid type"),
+                                PersistedState::Amount(_, blinding, _) => Ok(*blinding),
+                                _ => Err(BuilderError::InvalidInputState(id)),
                             })
-                            .collect::<Vec<_>>()
+                            .collect::<Result<Vec<_>, _>>()
                     })
+                    .transpose()?
                     .unwrap_or_default();
                 if inputs.is_empty() {
                     inputs = vec![BlindingFactor::EMPTY];
                 }
-                state.blinding = BlindingFactor::zero_balanced(inputs, blindings).expect(
-                    "malformed set of blinding factors; probably random generator is broken",
-                );
+                state.blinding = BlindingFactor::zero_balanced(inputs, blindings)
+                    .map_err(|_| BuilderError::UnbalancedBlinding(id))?;
             }
             let state = Confined::try_from_iter(vec).expect("at least one element");
             let state = TypedAssigns::Fungible(state);
-            (id, state)
+            Ok((id, state))
         });
+        let owned_state = owned_state.collect::<Result<Vec<_>, BuilderError>>()?;
         let owned_data = self.data.into_iter().map(|(id, vec)| {
             let vec_data = vec.into_iter().map(|(seal, value)| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
@@ -1468,7 +1480,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             .extend(Assignments::from_inner(owned_attachments).into_inner())
             .expect("too many assignments");
 
-        (
+        Ok((
             self.schema,
             self.iface,
             self.iimpl,
@@ -1477,6 +1489,6 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             assignments,
             self.types,
             self.asset_tags,
-        )
+        ))
     }
 }
-- 
2.43.0


From 43a736f8cef2cc6d8c50d8bce65c65c10e92970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:37 +0000
Subject: [PATCH 18/46] fix: return an error for an operation unknown to the
 interface

An invoice naming such an operation, or an interface without default operation,
were leading to a panic.
---
 src/persistence/stash.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 421440c..def9015 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -47,7 +47,8 @@ use crate::containers::{
     SigBlob, Supplement, TrustLevel, WitnessBundle,
 };
 use crate::interface::{
-    ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef, TransitionBuilder,
+    BuilderError, ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef,
+    TransitionBuilder,
 };
 use crate::persistence::{ContractIfaceError, StoreTransaction};
 use crate::{MergeReveal, MergeRevealError, SecretSeal, LIB_NAME_RGB_STD};
@@ -160,6 +161,10 @@ pub enum StashDataError {
     #[from]
     #[display(inner)]
     NoAbstractIface(ContractIfaceError),
+
+    #[from]
+    #[display(inner)]
+    Builder(BuilderError),
 }
 
 #[derive(Clone, Eq, PartialEq, Debug)]
@@ -377,7 +382,7 @@ impl<P: StashProvider> Stash<P> {
                 types,
             )
         }
-        .expect("internal inconsistency");
+        .map_err(StashDataError::from)?;
 
         for (assignment_type, asset_tag) in genesis.asset_tags.iter() {
             builder = builder
-- 
2.43.0


From 9aa8fbcf61ed5786a135798beecebca40c429c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:22 +0000
Subject: [PATCH 19/46] fix: preserve state of the paid type which is not a
 part of the payment

When an output held several tokens, or rights, of the type requested by the
invoice, all of them except the paid one were destroyed by the payment.
---
 src/persistence/stock.rs | 47 +++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index f852dc2..6d2512d 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1022,8 +1022,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         let mut main_inputs = Vec::<XOutputSeal>::new();
         let mut sum_inputs = Amount::ZERO;
         let mut sum_alt = Amount::ZERO;
-        let mut data_inputs = vec![];
-        let mut data_main = true;
+        let mut data_method = None;
         let lookup_state =
             if let InvoiceState::Data(NonFungible::RGB21(allocation)) = &invoice.owned_state {
                 Some(DataState::from(*allocation))
@@ -1045,24 +1044,31 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 } else {
                     alt_builder = alt_builder.add_input(opout, state.clone())?;
                 }
-                if opout.ty != assignment_id {
-                    let seal = output_for_assignment(contract_id, opout.ty)?;
-                    state.update_blinding(pedersen_blinder(contract_id, assignment_id));
-                    if output.method() == method {
-                        main_builder = main_builder.add_owned_state_raw(opout.ty, seal, state)?;
-                    } else {
-                        alt_builder = alt_builder.add_owned_state_raw(opout.ty, seal, state)?;
+                match state {
+                    PersistedState::Amount(value, _, _) if opout.ty == assignment_id => {
+                        sum_inputs += value;
+                        if output.method() != method {
+                            sum_alt += value;
+                        }
                     }
-                } else if let PersistedState::Amount(value, _, _) = state {
-                    sum_inputs += value;
-                    if output.method() != method {
-                        sum_alt += value;
+                    PersistedState::Data(ref value, _)
+                        if opout.ty == assignment_id
+                            && data_method.is_none()
+                            && lookup_state.as_ref() == Some(value) =>
+                    {
+                        data_method = Some(output.method());
                     }
-                } else if let PersistedState::Data(value, _) = state {
-                    if lookup_state.as_ref() == Some(&value) && output.method() != method {
-                        data_main = false;
+                    // All the state which is not a part of the payment must be preserved
+                    _ => {
+                        let seal = output_for_assignment(contract_id, opout.ty)?;
+                        state.update_blinding(pedersen_blinder(contract_id, assignment_id));
+                        if output.method() == method {
+                            main_builder =
+                                main_builder.add_owned_state_raw(opout.ty, seal, state)?;
+                        } else {
+                            alt_builder = alt_builder.add_owned_state_raw(opout.ty, seal, state)?;
+                        }
                     }
-                    data_inputs.push(value);
                 }
             }
         }
@@ -1119,13 +1125,10 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
             InvoiceState::Data(data) => match data {
                 NonFungible::RGB21(allocation) => {
-                    let lookup_state = DataState::from(allocation);
-                    if !data_inputs.into_iter().any(|x| x == lookup_state) {
-                        return Err(ComposeError::InsufficientState.into());
-                    }
+                    let data_method = data_method.ok_or(ComposeError::InsufficientState)?;
 
                     let seal = seal_blinder(contract_id, assignment_id);
-                    if data_main {
+                    if data_method == method {
                         main_builder = main_builder.add_data_raw(
                             assignment_id,
                             beneficiary,
-- 
2.43.0


From a69dd6f3fdc858e68670141bcf1051da2390ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:23 +0000
Subject: [PATCH 20/46] fix: require a change output only when there is a
 change

A payment of the whole input amount was refused when the wallet had no output
for the change.
---
 src/persistence/stock.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 6d2512d..00c13b9 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1102,25 +1102,27 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     )?;
                 }
 
-                let blinding_change = pedersen_blinder(contract_id, assignment_id);
-                let change_seal = output_for_assignment(contract_id, assignment_id)?;
-
                 // Pay change
-                if sum_main > paid_main {
-                    main_builder = main_builder.add_fungible_state_raw(
-                        assignment_id,
-                        change_seal,
-                        sum_main - paid_main,
-                        blinding_change,
-                    )?;
-                }
-                if sum_alt > paid_alt {
-                    alt_builder = alt_builder.add_fungible_state_raw(
-                        assignment_id,
-                        change_seal,
-                        sum_alt - paid_alt,
-                        blinding_change,
-                    )?;
+                if sum_inputs > amt {
+                    let blinding_change = pedersen_blinder(contract_id, assignment_id);
+                    let change_seal = output_for_assignment(contract_id, assignment_id)?;
+
+                    if sum_main > paid_main {
+                        main_builder = main_builder.add_fungible_state_raw(
+                            assignment_id,
+                            change_seal,
+                            sum_main - paid_main,
+                            blinding_change,
+                        )?;
+                    }
+                    if sum_alt > paid_alt {
+                        alt_builder = alt_builder.add_fungible_state_raw(
+                            assignment_id,
+                            change_seal,
+                            sum_alt - paid_alt,
+                            blinding_change,
+                        )?;
+                    }
                 }
             }
             InvoiceState::Data(data) => match data {
-- 
2.43.0


From 2b6727166b388cfb8f22748e05ce2d136864d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:25 +0000
Subject: [PATCH 21/46] fix: return errors instead of panics for payments which
 can't be composed

Invoices requesting neither an amount nor a token, and inputs with a total
amount above the limit, were leading to a panic.
---
 src/persistence/stock.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 00c13b9..9fd6e70 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -235,6 +235,12 @@ pub enum ComposeError {
     /// smart contract state.
     InsufficientState,
 
+    /// the sum of the input amounts exceeds the maximal amount.
+    AmountOverflow,
+
+    /// payments of the state requested by the invoice are not supported.
+    UnsupportedState,
+
     /// the spent UTXOs contain too many seals which can't fit the state
     /// transition input limit.
     TooManyInputs,
@@ -1046,7 +1052,9 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 }
                 match state {
                     PersistedState::Amount(value, _, _) if opout.ty == assignment_id => {
-                        sum_inputs += value;
+                        sum_inputs = sum_inputs
+                            .checked_add(value)
+                            .ok_or(ComposeError::AmountOverflow)?;
                         if output.method() != method {
                             sum_alt += value;
                         }
@@ -1147,12 +1155,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     }
                 }
             },
-            _ => {
-                todo!(
-                    "only PersistedState::Amount and PersistedState::Allocation are currently \
-                     supported"
-                )
-            }
+            _ => return Err(ComposeError::UnsupportedState.into()),
         }
 
         // 3. Prepare other transitions
-- 
2.43.0


From fb04170481eb0063e1be4865f6ef1caec099867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:26 +0000
Subject: [PATCH 22/46] fix: do not create empty blank transitions

Composing a payment panicked when a spent output had belonged to a contract
having no valid state on it.
---
 src/persistence/stock.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 9fd6e70..3f7b0f7 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1168,6 +1168,9 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 continue;
             }
             let state = self.contract_assignments_for(id, prev_outputs.iter().copied())?;
+            if state.is_empty() {
+                continue;
+            }
             let entry = spent_state.entry(id).or_default();
             for (seal, assigns) in state {
                 entry.entry(seal).or_default().extend(assigns);
-- 
2.43.0


From 8e7ef84043be4f0d83ecbe49e4c2627d01f19740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:28 +0000
Subject: [PATCH 23/46] fix: compose payments in a defined order

The order of inputs was the one of a hash map, thus deterministic composing
produced a different result each time.
---
 src/persistence/stock.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 3f7b0f7..2fde622 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -20,7 +20,7 @@
 // limitations under the License.
 
 use std::collections::btree_map::Entry;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::convert::Infallible;
 use std::error::Error;
 use std::fmt::Debug;
@@ -64,6 +64,15 @@ use crate::MergeRevealError;
 
 pub type ContractAssignments = HashMap<XOutputSeal, HashMap<Opout, PersistedState>>;
 
+fn ordered(
+    assignments: ContractAssignments,
+) -> BTreeMap<XOutputSeal, BTreeMap<Opout, PersistedState>> {
+    assignments
+        .into_iter()
+        .map(|(seal, list)| (seal, list.into_iter().collect()))
+        .collect()
+}
+
 #[derive(Debug, Display, Error, From)]
 #[display(inner)]
 pub enum StockError<
@@ -950,7 +959,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         let prev_outputs = prev_outputs
             .into_iter()
             .map(|o| o.into())
-            .collect::<HashSet<XOutputSeal>>();
+            .collect::<BTreeSet<XOutputSeal>>();
 
         #[allow(clippy::type_complexity)]
         let output_for_assignment =
@@ -1036,9 +1045,11 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 None
             };
 
-        for (output, list) in
-            self.contract_assignments_for(contract_id, prev_outputs.iter().copied())?
-        {
+        // Iteration must happen in a defined order, such that the same blinding factors
+        // are always used for the same state
+        for (output, list) in ordered(
+            self.contract_assignments_for(contract_id, prev_outputs.iter().copied())?,
+        ) {
             if output.method() == method {
                 main_inputs.push(output)
             } else {
@@ -1161,7 +1172,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         // 3. Prepare other transitions
         // Enumerate state
         let mut spent_state =
-            HashMap::<ContractId, HashMap<XOutputSeal, HashMap<Opout, PersistedState>>>::new();
+            BTreeMap::<ContractId, BTreeMap<XOutputSeal, BTreeMap<Opout, PersistedState>>>::new();
         for id in self.contracts_assigning(prev_outputs.iter().copied())? {
             // Skip current contract
             if id == contract_id {
@@ -1171,10 +1182,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             if state.is_empty() {
                 continue;
             }
-            let entry = spent_state.entry(id).or_default();
-            for (seal, assigns) in state {
-                entry.entry(seal).or_default().extend(assigns);
-            }
+            spent_state.insert(id, ordered(state));
         }
 
         // Construct blank transitions
-- 
2.43.0


From 748f32b881bdcf83a4deeacad4e5365bd5c53d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:29 +0000
Subject: [PATCH 24/46] fix: do not put state of other contracts into a
 consignment

When the same secret seal was used for several contracts, a consignment had
included operations of all of them.
---
 src/persistence/stock.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 2fde622..7670404 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -780,7 +780,20 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             self.index
                 .opouts_by_outputs(contract_id, outputs.iter().copied())?,
         );
-        opouts.extend(self.index.opouts_by_terminals(secret_seal.into_iter())?);
+        // The same seal may be used for several contracts
+        opouts.extend(
+            self.index
+                .opouts_by_terminals(secret_seal.into_iter())?
+                .into_iter()
+                .filter(|opout| {
+                    opout.op == contract_id
+                        || self
+                            .index
+                            .bundle_id_for_op(opout.op)
+                            .and_then(|bundle_id| self.index.bundle_info(bundle_id))
+                            .is_ok_and(|(_, id)| id == contract_id)
+                }),
+        );
 
         // 1.3. Collect all state transitions assigning state to the provided outpoints
         let mut anchored_bundles = BTreeMap::<BundleId, ClientBundle>::new();
-- 
2.43.0


From bb934a5ae3bb478a1cf4e1dafe2a6f0a6fdc1fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:30 +0000
Subject: [PATCH 25/46] fix: do not panic when a secret seal is used by several
 assignments

Only a single seal can be a terminal, so there is nothing to get lost.
---
 src/persistence/stock.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 7670404..e7c58e2 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -813,8 +813,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 for index in 0..typed_assignments.len_u16() {
                     let seal = typed_assignments.to_confidential_seals()[index as usize];
                     if secret_seal == Some(seal) {
-                        let res = terminals.insert(bundle_id, seal);
-                        assert_eq!(res, None);
+                        terminals.insert(bundle_id, seal);
                     }
                 }
             }
-- 
2.43.0


From d39de9ff1b4540d61fa14748ddeb7e438b70f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:32 +0000
Subject: [PATCH 26/46] fix: visit each operation once when consigning the
 history

The number of visits was growing exponentially with the history length when
operations had several inputs from the same ancestors.
---
 src/persistence/stock.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index e7c58e2..74cc763 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -825,6 +825,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
 
         // 2. Collect all state transitions between terminals and genesis
         let mut ids = vec![];
+        let mut visited = BTreeSet::new();
         for transition in transitions.values() {
             ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
         }
@@ -832,6 +833,9 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             if id == contract_id {
                 continue; // we skip genesis since it will be present anywhere
             }
+            if !visited.insert(id) {
+                continue; // the history of this operation is already collected
+            }
             let transition = self.transition(id)?;
             ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
             transitions.insert(id, transition.clone());
-- 
2.43.0


From 5882ff9ea345b10d9594e80ddcbc7682fdf5230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:55 +0000
Subject: [PATCH 27/46] fix: make armored kits and consignments readable

Headers with several values or parameters took several lines, which is not
supported by the parser of the ASCII armor.
---
 src/containers/consignment.rs | 17 +++++++++++++----
 src/containers/kit.rs         | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index d1e85fc..301f3e7 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -384,6 +384,7 @@ impl<const TRANSFER: bool> StrictArmor for Consignment<TRANSFER> {
 
     fn armor_id(&self) -> Self::Id { self.commit_id() }
     fn armor_headers(&self) -> Vec<ArmorHeader> {
+        // Each header must fit a single line, otherwise it can't be parsed
         let mut headers = vec![
             ArmorHeader::new(ASCII_ARMOR_VERSION, format!("{:#}", self.version)),
             ArmorHeader::new(
@@ -394,15 +395,23 @@ impl<const TRANSFER: bool> StrictArmor for Consignment<TRANSFER> {
             ArmorHeader::new(ASCII_ARMOR_SCHEMA, self.schema.schema_id().to_string()),
         ];
         if !self.ifaces.is_empty() {
-            headers.push(ArmorHeader::with(
+            headers.push(ArmorHeader::new(
                 ASCII_ARMOR_IFACE,
-                self.ifaces.keys().map(|iface| iface.name.to_string()),
+                self.ifaces
+                    .keys()
+                    .map(|iface| iface.name.to_string())
+                    .collect::<Vec<_>>()
+                    .join(", "),
             ));
         }
         if !self.terminals.is_empty() {
-            headers.push(ArmorHeader::with(
+            headers.push(ArmorHeader::new(
                 ASCII_ARMOR_TERMINAL,
-                self.terminals.keys().map(BundleId::to_string),
+                self.terminals
+                    .keys()
+                    .map(BundleId::to_string)
+                    .collect::<Vec<_>>()
+                    .join(", "),
             ));
         }
         headers
diff --git a/src/containers/kit.rs b/src/containers/kit.rs
index 4316f83..d4601ff 100644
--- a/src/containers/kit.rs
+++ b/src/containers/kit.rs
@@ -193,6 +193,16 @@ impl Kit {
     }
 }
 
+/// Header must fit a single line, otherwise it can't be parsed.
+fn single_line(mut header: ArmorHeader) -> ArmorHeader {
+    let mut value = header.values.join(", ");
+    for (name, val) in header.params.drain(..) {
+        value += &format!("; {name}={val}");
+    }
+    header.values = vec![value];
+    header
+}
+
 impl StrictArmor for Kit {
     type Id = KitId;
     const PLATE_TITLE: &'static str = "RGB KIT";
@@ -217,7 +227,7 @@ impl StrictArmor for Kit {
                     .params
                     .push((s!("suppl"), format!("{:-}", suppl.suppl_id())));
             }
-            headers.push(header);
+            headers.push(single_line(header));
         }
         for iface in &self.ifaces {
             let mut header = ArmorHeader::new(ASCII_ARMOR_IFACE, iface.name.to_string());
@@ -233,7 +243,7 @@ impl StrictArmor for Kit {
                     .params
                     .push((s!("suppl"), format!("{:-}", suppl.suppl_id())));
             }
-            headers.push(header);
+            headers.push(single_line(header));
         }
         for iimpl in &self.iimpls {
             let id = iimpl.impl_id();
@@ -254,7 +264,7 @@ impl StrictArmor for Kit {
                     .params
                     .push((s!("suppl"), format!("{:-}", suppl.suppl_id())));
             }
-            headers.push(header);
+            headers.push(single_line(header));
         }
         headers.push(ArmorHeader::new(ASCII_ARMOR_TYPE_SYSTEM, self.types.id().to_string()));
         for lib in &self.scripts {
-- 
2.43.0


From 461320cbb08ca7f844016fa38bd4a23504127be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:57 +0000
Subject: [PATCH 28/46] fix: parse invoices to the liquid mainnet

---
 invoice/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 08e4a37..90e74c6 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -228,7 +228,7 @@ impl FromStr for ChainNet {
             x if ChainNet::BitcoinTestnet.to_string() == x => Ok(ChainNet::BitcoinTestnet),
             x if ChainNet::BitcoinSignet.to_string() == x => Ok(ChainNet::BitcoinSignet),
             x if ChainNet::BitcoinRegtest.to_string() == x => Ok(ChainNet::BitcoinRegtest),
-            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::BitcoinMainnet),
+            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::LiquidMainnet),
             x if ChainNet::LiquidTestnet.to_string() == x => Ok(ChainNet::LiquidTestnet),
             _ => Err(InvoiceParseError::Beneficiary(s.to_owned())),
         }
-- 
2.43.0


From d0e919e869b92f0275109a6b881c65365a54dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:59 +0000
Subject: [PATCH 29/46] fix: parse operation and assignment names of invoices

Invoices with such names were printed in a form which can't be parsed back.
---
 invoice/src/parse.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 90e74c6..bdb4f2d 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -31,7 +31,7 @@ use indexmap::IndexMap;
 use invoice::{AddressPayload, UnknownNetwork};
 use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use rgb::{ContractId, SecretSeal};
-use strict_encoding::{InvalidRString, TypeName};
+use strict_encoding::{FieldName, InvalidRString, TypeName};
 
 use crate::invoice::{
     Beneficiary, ChainNet, InvoiceState, Pay2Vout, RgbInvoice, RgbTransport, XChainNet,
@@ -103,6 +103,9 @@ pub enum InvoiceParseError {
     /// invalid interface {0}.
     InvalidIface(String),
 
+    /// invalid operation or assignment name {0}.
+    InvalidName(String),
+
     /// invalid expiration timestamp {0}.
     InvalidExpiration(String),
 
@@ -311,6 +314,8 @@ impl Display for RgbInvoice {
         }
         if let Some(ref op) = self.operation {
             write!(f, "{op}/")?;
+        } else if self.assignment.is_some() {
+            write!(f, "{OMITTED}/")?;
         }
         if let Some(ref assignment_name) = self.assignment {
             write!(f, "{assignment_name}/")?;
@@ -389,9 +394,22 @@ impl FromStr for RgbInvoice {
             return Err(InvoiceParseError::ContractIdNoIface);
         }
 
-        let Some(assignment) = path.next() else {
+        let mut names = path.collect::<Vec<_>>();
+        let Some(assignment) = names.pop() else {
             return Err(InvoiceParseError::AssignmentMissed);
         };
+        if names.len() > 2 {
+            return Err(InvoiceParseError::Invalid);
+        }
+        let mut names = names
+            .into_iter()
+            .map(|name| match FieldName::try_from(name.to_string()) {
+                Ok(name) => Ok(Some(name)),
+                Err(_) if name.as_str() == OMITTED => Ok(None),
+                Err(_) => Err(InvoiceParseError::InvalidName(name.to_string())),
+            });
+        let operation = names.next().transpose()?.flatten();
+        let assignment_name = names.next().transpose()?.flatten();
         let (amount, beneficiary) = assignment
             .as_str()
             .split_once('+')
@@ -436,8 +454,8 @@ impl FromStr for RgbInvoice {
             transports,
             contract,
             iface,
-            operation: None,
-            assignment: None,
+            operation,
+            assignment: assignment_name,
             beneficiary,
             owned_state: value,
             expiry,
-- 
2.43.0


From 095fc6269e48a17052ddd6179e86fad71f8c6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:01 +0000
Subject: [PATCH 30/46] fix: escape all special characters of invoice
 parameters

A percent sign was read back as the start of an escape sequence, and the
characters not allowed in URIs were making the invoice unreadable.
---
 invoice/src/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index bdb4f2d..6616640 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -51,7 +51,14 @@ const QUERY_ENCODE: &AsciiSet = &CONTROLS
     .add(b'[')
     .add(b']')
     .add(b'&')
-    .add(b'=');
+    .add(b'=')
+    .add(b'%')
+    .add(b'\\')
+    .add(b'^')
+    .add(b'`')
+    .add(b'{')
+    .add(b'|')
+    .add(b'}');
 
 #[derive(Clone, PartialEq, Eq, Debug, Display, Error, From)]
 #[display(inner)]
-- 
2.43.0


From d68fcf0e6a975edd476d532f57f04c3ab1f67266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:02 +0000
Subject: [PATCH 31/46] fix: keep transport unspecified when no transports are
 added

The invoice had an empty list of endpoints, which can't be parsed.
---
 invoice/src/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 17f2da3..2d622eb 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -165,8 +165,9 @@ impl RgbInvoiceBuilder {
         mut self,
         transports: impl IntoIterator<Item = RgbTransport>,
     ) -> Self {
-        self.drop_unspecified_transport();
-        self.0.transports.extend(transports);
+        for transport in transports {
+            self = self.add_transport_raw(transport);
+        }
         self
     }
 
-- 
2.43.0


From eee826971f23848b22256206547a870cf2c4d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:04 +0000
Subject: [PATCH 32/46] fix: refuse too large invoice amounts instead of a
 panic

---
 invoice/src/amount.rs  | 11 +++--------
 invoice/src/builder.rs | 11 ++++++-----
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index 9007f08..41e7ac3 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -335,19 +335,14 @@ impl CoinAmount {
         })
     }
 
-    pub(crate) fn to_amount_unchecked(self) -> Amount {
+    pub(crate) fn to_amount(self) -> Option<Amount> {
         // 2^64 ~ 10^19 < 10^18 (18 is max value for Precision enum)
         let pow = 10u64.pow(self.precision.decimals() as u32);
         // number of decimals can't be larger than the smallest possible integer
         self.int
-            .checked_mul(pow)
-            .expect("CoinAmount type garantees are broken")
+            .checked_mul(pow)?
             .checked_add(self.fract)
-            .expect(
-                "integer has at least the same number of zeros in the lowest digits as much as \
-                 decimals has digits at most, so overflow is not possible",
-            )
-            .into()
+            .map(Amount::from)
     }
 }
 
diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 2d622eb..3b1ff3e 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -89,11 +89,12 @@ impl RgbInvoiceBuilder {
         decimals: u64,
         precision: Precision,
     ) -> Result<Self, Self> {
-        let amount = match CoinAmount::with(integer, decimals, precision) {
-            Ok(amount) => amount,
-            Err(_) => return Err(self),
-        }
-        .to_amount_unchecked();
+        let Some(amount) = CoinAmount::with(integer, decimals, precision)
+            .ok()
+            .and_then(CoinAmount::to_amount)
+        else {
+            return Err(self);
+        };
         self.0.owned_state = InvoiceState::Amount(amount);
         Ok(self)
     }
-- 
2.43.0


From 1b5f667a7e68164fcb9b0febcb5c8c3d827fb812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:05 +0000
Subject: [PATCH 33/46] fix: keep fractional part of approximate invoice
 amounts

It was truncated to an integer number of coins, i.e. always to zero.
---
 invoice/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 3b1ff3e..71e191c 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -118,7 +118,7 @@ impl RgbInvoiceBuilder {
             return Err(self);
         }
         let coins = amount.floor();
-        let cents = amount - coins;
+        let cents = (amount - coins) * precision.multiplier() as f64;
         self.set_amount(coins as u64, cents as u64, precision)
     }
 
-- 
2.43.0


From 3d1445a1a07354b909c027efe8dc7c5f9da2057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:30 +0000
Subject: [PATCH 34/46] fix: consign the history of all transitions of a bundle

Bundles are put into a consignment with all the transitions known for them,
but the history was collected only for one transition. A consignment for a
bundle with several transitions of the same contract didn't pass validation.
---
 src/persistence/stock.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 74cc763..61290e4 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -823,11 +823,12 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
         }
 
-        // 2. Collect all state transitions between terminals and genesis
+        // 2. Collect all state transitions between terminals and genesis. Since bundles are
+        //    consigned with all their known transitions, this includes the history of each of them
         let mut ids = vec![];
         let mut visited = BTreeSet::new();
-        for transition in transitions.values() {
-            ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
+        for bundle_id in anchored_bundles.keys() {
+            ids.extend(self.stash.bundle(*bundle_id)?.known_transitions.keys().copied());
         }
         while let Some(id) = ids.pop() {
             if id == contract_id {
@@ -840,6 +841,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
             transitions.insert(id, transition.clone());
             let bundle_id = self.index.bundle_id_for_op(transition.id())?;
+            ids.extend(self.stash.bundle(bundle_id)?.known_transitions.keys().copied());
             anchored_bundles
                 .entry(bundle_id)
                 .or_insert(self.client_bundle(bundle_id)?.clone())
-- 
2.43.0


From 231e469a9b7855e91b9396518685788db961a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:41 +0000
Subject: [PATCH 35/46] fix: report all known state of bundles coming more than
 once

State and index were updated only from the copy of a bundle which was
taken in, while the stash keeps all the copies merged. After a bundle was
anchored to a replacement transaction, the state on blinded seals known
from the previous copy was not reported anymore.
---
 src/persistence/stock.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 61290e4..fd5aa55 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1345,15 +1345,48 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
 
         consignment = self.stash.resolve_secrets(consignment)?;
         self.store_transaction(move |stash, state, index| {
+            let known_bundles = consignment
+                .bundles
+                .iter()
+                .flat_map(|witness_bundle| witness_bundle.anchored_bundles.bundles())
+                .map(|bundle| bundle.bundle_id())
+                .filter(|bundle_id| stash.bundle(*bundle_id).is_ok())
+                .collect::<BTreeSet<_>>();
             state.update_from_consignment(&consignment, &resolver)?;
             index.index_consignment(&consignment)?;
             stash.consume_consignment(consignment)?;
+            for bundle_id in known_bundles {
+                Self::update_known_bundle::<Infallible, _>(
+                    stash, state, index, bundle_id, &resolver,
+                )?;
+            }
             Ok(())
         })?;
 
         Ok(status)
     }
 
+    /// Updates state and index with everything stash knows about the bundle.
+    ///
+    /// A bundle may come more than once, with different witnesses and with
+    /// different parts of it being revealed; thus none of the copies may reveal
+    /// all of the state which has to be known for each of the witnesses.
+    fn update_known_bundle<E: Error, R: ResolveWitness>(
+        stash: &Stash<S>,
+        state: &mut State<H>,
+        index: &mut Index<P>,
+        bundle_id: BundleId,
+        resolver: R,
+    ) -> Result<(), StockError<S, H, P, E>> {
+        let bundle = stash.bundle(bundle_id)?;
+        let (witness_ids, contract_id) = index.bundle_info(bundle_id)?;
+        for witness_id in witness_ids.collect::<Vec<_>>() {
+            index.index_bundle(contract_id, bundle, witness_id)?;
+            state.update_from_bundle(contract_id, bundle, witness_id, &resolver)?;
+        }
+        Ok(())
+    }
+
     /// Imports fascia into the stash, index and inventory.
     ///
     /// Part of the transfer workflow. Called once PSBT is completed and an RGB
@@ -1385,7 +1418,14 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
 
                 index.index_bundle(contract_id, &bundle, witness_id)?;
                 state.update_from_bundle(contract_id, &bundle, witness_id, &resolver)?;
+                let bundle_id = bundle.bundle_id();
+                let known = stash.bundle(bundle_id).is_ok();
                 stash.consume_bundle(bundle)?;
+                if known {
+                    Self::update_known_bundle::<FasciaError, _>(
+                        stash, state, index, bundle_id, &resolver,
+                    )?;
+                }
             }
             Ok(())
         })
-- 
2.43.0


From a15824656add18a503979f9d04b0642129c476ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:10 +0000
Subject: [PATCH 36/46] fix: leave mnemonics of attachment ids out of invoices

The mnemonic is separated by a hash sign, which ends the path of the
invoice URI, so an invoice for an attachment could not be parsed.
---
 invoice/src/invoice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/invoice/src/invoice.rs b/invoice/src/invoice.rs
index 853bd70..0048d69 100644
--- a/invoice/src/invoice.rs
+++ b/invoice/src/invoice.rs
@@ -57,7 +57,8 @@ pub enum InvoiceState {
     Amount(Amount),
     #[display(inner)]
     Data(NonFungible),
-    #[display(inner)]
+    // The mnemonic starts with a `#`, which ends the path of an invoice URI
+    #[display("{0:#}")]
     Attach(AttachId),
 }
 
-- 
2.43.0


From b3eb13c23991d8d724028c3f0c92b93de86ec315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:09 +0000
Subject: [PATCH 37/46] fix: consign a payment when another one to the same
 seal is no longer valid

---
 src/persistence/stock.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index fd5aa55..850e5ed 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -799,15 +799,27 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         let mut anchored_bundles = BTreeMap::<BundleId, ClientBundle>::new();
         let mut transitions = BTreeMap::<OpId, Transition>::new();
         let mut terminals = BTreeMap::<BundleId, XChain<SecretSeal>>::new();
+        let mut has_invalid = false;
         for opout in opouts {
             if opout.op == contract_id {
                 continue; // we skip genesis since it will be present anywhere
             }
 
             let transition = self.transition(opout.op)?;
+            let bundle_id = self.index.bundle_id_for_op(transition.id())?;
+            if let Entry::Vacant(entry) = anchored_bundles.entry(bundle_id) {
+                match self.client_bundle(bundle_id) {
+                    Ok(bundle) => entry.insert(bundle),
+                    // Another operation assigning to the same seal may still be valid
+                    Err(StockError::AbsentValidWitness) => {
+                        has_invalid = true;
+                        continue;
+                    }
+                    Err(err) => return Err(err.into()),
+                };
+            }
             transitions.insert(opout.op, transition.clone());
 
-            let bundle_id = self.index.bundle_id_for_op(transition.id())?;
             // 2. Collect secret seals from terminal transitions to add to the consignment terminals
             for typed_assignments in transition.assignments.values() {
                 for index in 0..typed_assignments.len_u16() {
@@ -817,10 +829,9 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     }
                 }
             }
-
-            if let Entry::Vacant(entry) = anchored_bundles.entry(bundle_id) {
-                entry.insert(self.client_bundle(bundle_id)?);
-            }
+        }
+        if has_invalid && anchored_bundles.is_empty() {
+            return Err(StockError::AbsentValidWitness);
         }
 
         // 2. Collect all state transitions between terminals and genesis. Since bundles are
-- 
2.43.0


From a49e6e2adc9113d04921574473838708500d9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:13 +0000
Subject: [PATCH 38/46] fix: report no default assignment for operations
 unknown to the interface

---
 src/interface/builder.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index eb4db6b..f013be2 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -626,8 +626,7 @@ impl TransitionBuilder {
     pub fn default_assignment(&self) -> Result<&FieldName, BuilderError> {
         self.builder
             .transition_iface(self.transition_type)
-            .default_assignment
-            .as_ref()
+            .and_then(|iface| iface.default_assignment.as_ref())
             .ok_or(BuilderError::NoDefaultAssignment)
     }
 
@@ -895,12 +894,10 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
 
     fn type_system(&self) -> &TypeSystem { &self.types }
 
-    fn transition_iface(&self, ty: TransitionType) -> &TransitionIface {
-        let transition_name = self.iimpl.transition_name(ty).expect("reverse type");
-        self.iface
-            .transitions
-            .get(transition_name)
-            .expect("internal inconsistency")
+    /// Returns `None` for the transitions not defined by the interface, like blank ones.
+    fn transition_iface(&self, ty: TransitionType) -> Option<&TransitionIface> {
+        let transition_name = self.iimpl.transition_name(ty)?;
+        self.iface.transitions.get(transition_name)
     }
 
     fn assignments_type(&self, name: &FieldName) -> Option<AssignmentType> {
-- 
2.43.0


From 4aacff8a66934a35687a37dc8086b9d7dcedae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:22 +0000
Subject: [PATCH 39/46] fix: refuse raw state of a type unknown to the schema
 in operation builders

---
 src/interface/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index f013be2..967b383 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -923,11 +923,11 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
     }
 
     #[inline]
-    fn state_schema(&self, type_id: AssignmentType) -> &OwnedStateSchema {
+    fn state_schema(&self, type_id: AssignmentType) -> Result<&OwnedStateSchema, BuilderError> {
         self.schema
             .owned_types
             .get(&type_id)
-            .expect("schema should match interface: must be checked by the constructor")
+            .ok_or(BuilderError::InvalidStateType(type_id))
     }
 
     #[inline]
@@ -1113,7 +1113,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         type_id: AssignmentType,
         seal: impl Into<BuilderSeal<Seal>>,
     ) -> Result<Self, BuilderError> {
-        let state_schema = self.state_schema(type_id);
+        let state_schema = self.state_schema(type_id)?;
         if *state_schema != OwnedStateSchema::Declarative {
             return Err(BuilderError::InvalidStateType(type_id));
         }
@@ -1182,7 +1182,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         seal: impl Into<BuilderSeal<Seal>>,
         state: RevealedValue,
     ) -> Result<Self, BuilderError> {
-        let state_schema = self.state_schema(type_id);
+        let state_schema = self.state_schema(type_id)?;
         if *state_schema != OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit) {
             return Err(BuilderError::InvalidStateType(type_id));
         }
@@ -1252,7 +1252,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         seal: impl Into<BuilderSeal<Seal>>,
         state: RevealedData,
     ) -> Result<Self, BuilderError> {
-        let state_schema = self.state_schema(type_id);
+        let state_schema = self.state_schema(type_id)?;
         if let OwnedStateSchema::Structured(_) = *state_schema {
             let seal = seal.into();
             match self.data.get_mut(&type_id) {
@@ -1323,7 +1323,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         seal: impl Into<BuilderSeal<Seal>>,
         state: RevealedAttach,
     ) -> Result<Self, BuilderError> {
-        let state_schema = self.state_schema(type_id);
+        let state_schema = self.state_schema(type_id)?;
         if let OwnedStateSchema::Attachment(_) = *state_schema {
             let seal = seal.into();
             match self.attachments.get_mut(&type_id) {
-- 
2.43.0


From c5c677f5f49299bb09fa379c8ee3b46b5787464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:42 +0000
Subject: [PATCH 40/46] fix: refuse consignments which lack a validation script
 of their schema

The virtual machine skips calls to unknown libraries instead of failing, so a
consignment stripped of its scripts passed validation with any state. Validation
now reports absent libraries as failures, and consignments and kits carry also
the libraries called from the ones named by the schema.
---
 src/containers/consignment.rs | 19 ++++++++++++++++++-
 src/persistence/stash.rs      |  7 ++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 301f3e7..68c485a 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -33,7 +33,9 @@ use amplify::{ByteArray, Bytes32};
 use armor::{ArmorHeader, AsciiArmor, StrictArmor, StrictArmorError};
 use baid64::{Baid64ParseError, DisplayBaid64, FromBaid64Str};
 use commit_verify::{CommitEncode, CommitEngine, CommitId, CommitmentId, DigestExt, Sha256};
-use rgb::validation::{ResolveWitness, Validator, Validity, Warning, CONSIGNMENT_MAX_LIBS};
+use rgb::validation::{
+    Failure, ResolveWitness, Validator, Validity, Warning, CONSIGNMENT_MAX_LIBS,
+};
 use rgb::{
     impl_serde_baid64, validation, AttachId, BundleId, ContractId, Extension, Genesis, GraphSeal,
     Operation, Schema, SchemaId, XChain,
@@ -337,6 +339,21 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
             (&self.schema, self.contract_id()),
         );
 
+        // check all validation scripts are present, since the virtual machine does not fail on a
+        // call to an unknown library
+        let used_libs = self
+            .schema
+            .libs()
+            .chain(self.scripts.iter().flat_map(|lib| lib.libs_segment().iter().copied()))
+            .collect::<BTreeSet<_>>();
+        for lib_id in used_libs {
+            if !index.scripts().contains_key(&lib_id) {
+                status.add_failure(Failure::Custom(format!(
+                    "script library {lib_id} is not present in the consignment"
+                )));
+            }
+        }
+
         let validity = status.validity();
 
         if self.transfer != TRANSFER {
diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index def9015..1d86bed 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -312,8 +312,13 @@ impl<P: StashProvider> Stash<P> {
             .extract(type_iter)?;
 
         let mut scripts = BTreeMap::new();
-        for id in schema.libs() {
+        let mut queue = schema.libs().collect::<Vec<_>>();
+        while let Some(id) = queue.pop() {
+            if scripts.contains_key(&id) {
+                continue;
+            }
             let lib = self.provider.lib(id)?;
+            queue.extend(lib.libs_segment().iter().copied());
             scripts.insert(id, lib.clone());
         }
         let scripts = Scripts::try_from(scripts)
-- 
2.43.0


From 0d50237bb85a8493d25a32998d60074d1138811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:47 +0000
Subject: [PATCH 41/46] fix: process each operation once when consigning its
 outputs

Exporting a transfer looked through all the assignments of an operation for each
of its exported outputs, and concealed all the seals of the operation for each of
the assignments.
---
 src/persistence/stock.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 850e5ed..02912fe 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -804,6 +804,9 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             if opout.op == contract_id {
                 continue; // we skip genesis since it will be present anywhere
             }
+            if transitions.contains_key(&opout.op) {
+                continue; // another output of the same operation
+            }
 
             let transition = self.transition(opout.op)?;
             let bundle_id = self.index.bundle_id_for_op(transition.id())?;
@@ -822,8 +825,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
 
             // 2. Collect secret seals from terminal transitions to add to the consignment terminals
             for typed_assignments in transition.assignments.values() {
-                for index in 0..typed_assignments.len_u16() {
-                    let seal = typed_assignments.to_confidential_seals()[index as usize];
+                for seal in typed_assignments.to_confidential_seals() {
                     if secret_seal == Some(seal) {
                         terminals.insert(bundle_id, seal);
                     }
-- 
2.43.0


From 6af41dd9941b560ef744cbbc3bfa865dd4391474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:47 +0000
Subject: [PATCH 42/46] fix: refuse consignments with transitions their bundles
 do not commit to

A transition added to a bundle passed validation if it was closing the same seals
as an authentic one, although the witness transaction does not commit to it.
---
 src/containers/consignment.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 68c485a..475e062 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -354,6 +354,17 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
             }
         }
 
+        // check all transitions are committed to by their bundles, since the validator looks only
+        // at those which are listed in the input map
+        for (_, bundle) in self.bundles.iter().flat_map(WitnessBundle::anchored_bundles) {
+            let committed = bundle.input_map.values().collect::<BTreeSet<_>>();
+            for (opid, transition) in &bundle.known_transitions {
+                if !committed.contains(opid) || transition.id() != *opid {
+                    status.add_failure(Failure::BundleExtraTransition(bundle.bundle_id(), *opid));
+                }
+            }
+        }
+
         let validity = status.validity();
 
         if self.transfer != TRANSFER {
-- 
2.43.0


From 84aab968082cb1f41f4b571ddec48f04a4be0686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:47 +0000
Subject: [PATCH 43/46] fix: refuse consignments in which a bundle is present
 multiple times

Only one of the copies was validated, so that the others could be anchored to any
transaction or contain any transitions.
---
 src/containers/consignment.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 475e062..772458e 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -365,6 +365,17 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
             }
         }
 
+        // check bundles are not repeated, since the validator sees only one of the copies
+        let mut bundle_ids = BTreeSet::new();
+        for (_, bundle) in self.bundles.iter().flat_map(WitnessBundle::anchored_bundles) {
+            let bundle_id = bundle.bundle_id();
+            if !bundle_ids.insert(bundle_id) {
+                status.add_failure(Failure::Custom(format!(
+                    "transition bundle {bundle_id} is present in the consignment multiple times"
+                )));
+            }
+        }
+
         let validity = status.validity();
 
         if self.transfer != TRANSFER {
-- 
2.43.0


From a9bc2799ec328b92596a538aef658839775b8ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:47 +0000
Subject: [PATCH 44/46] fix: refuse consignments with extensions which are not
 used

State extensions which no transition refers to are not validated.
---
 src/containers/consignment.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 772458e..fc5c549 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -376,6 +376,14 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
             }
         }
 
+        // check all extensions are used by state transitions, since others are not validated
+        for opid in self.extensions.iter().map(Extension::id) {
+            let mut transitions = self.bundles.iter().flat_map(WitnessBundle::known_transitions);
+            if !transitions.any(|t| t.inputs.iter().any(|input| input.prev_out.op == opid)) {
+                status.add_failure(Failure::SealsUnvalidated(opid));
+            }
+        }
+
         let validity = status.validity();
 
         if self.transfer != TRANSFER {
@@ -403,8 +411,6 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
         }
         // TODO: check attach ids from data containers are present in operations
         // TODO: validate sigs and remove untrusted
-        // TODO: Check that all extensions present in the consignment are used by state
-        // transitions
 
         if validity != Validity::Valid {
             Err((status, self))
-- 
2.43.0


From c86152e1b7a3c71bea8118e21faee5dc1c2769c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:00:05 +0000
Subject: [PATCH 45/46] fix: name bundles under both methods among the known
 bundles of anchors

---
 src/containers/anchors.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/containers/anchors.rs b/src/containers/anchors.rs
index b608044..707dfec 100644
--- a/src/containers/anchors.rs
+++ b/src/containers/anchors.rs
@@ -455,17 +455,18 @@ impl StrictDumb for AnchorSet {
 
 impl AnchorSet {
     pub fn known_bundle_ids(&self) -> impl Iterator<Item = BundleId> {
-        let map = match self {
-            AnchorSet::Tapret(tapret) => tapret.mpc_proof.to_known_message_map().release(),
-            AnchorSet::Opret(opret) => opret.mpc_proof.to_known_message_map().release(),
-            AnchorSet::Double { tapret, opret } => {
-                let mut map = tapret.mpc_proof.to_known_message_map().release();
-                map.extend(opret.mpc_proof.to_known_message_map().release());
-                map
-            }
+        // The same contract may have bundles under both methods
+        let proofs = match self {
+            AnchorSet::Tapret(tapret) => vec![&tapret.mpc_proof],
+            AnchorSet::Opret(opret) => vec![&opret.mpc_proof],
+            AnchorSet::Double { tapret, opret } => vec![&tapret.mpc_proof, &opret.mpc_proof],
         };
-        map.into_values()
+        proofs
+            .into_iter()
+            .flat_map(|proof| proof.to_known_message_map().release().into_values())
             .map(|msg| BundleId::from_byte_array(msg.to_byte_array()))
+            .collect::<Vec<_>>()
+            .into_iter()
     }
 
     pub fn has_tapret(&self) -> bool { matches!(self, Self::Tapret(_) | Self::Double { .. }) }
-- 
2.43.0


From 5e82595cbc56d351c7f629b6bcf2471eb45cc950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:00:05 +0000
Subject: [PATCH 46/46] fix: leave out terminals without a valid history when
 consigning

---
 src/persistence/stock.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 02912fe..c3572ac 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -800,6 +800,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         let mut transitions = BTreeMap::<OpId, Transition>::new();
         let mut terminals = BTreeMap::<BundleId, XChain<SecretSeal>>::new();
         let mut has_invalid = false;
+        let mut valid = BTreeSet::new();
         for opout in opouts {
             if opout.op == contract_id {
                 continue; // we skip genesis since it will be present anywhere
@@ -811,7 +812,10 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             let transition = self.transition(opout.op)?;
             let bundle_id = self.index.bundle_id_for_op(transition.id())?;
             if let Entry::Vacant(entry) = anchored_bundles.entry(bundle_id) {
-                match self.client_bundle(bundle_id) {
+                match self
+                    .check_history(contract_id, bundle_id, &mut valid)
+                    .and_then(|_| self.client_bundle(bundle_id))
+                {
                     Ok(bundle) => entry.insert(bundle),
                     // Another operation assigning to the same seal may still be valid
                     Err(StockError::AbsentValidWitness) => {
@@ -1453,6 +1457,33 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             .ok_or(ConsignError::Concealed(bundle_id, opid).into())
     }
 
+    /// Checks that the bundle and all bundles in its history have a valid witness
+    fn check_history(
+        &self,
+        contract_id: ContractId,
+        bundle_id: BundleId,
+        valid: &mut BTreeSet<BundleId>,
+    ) -> Result<(), StockError<S, H, P>> {
+        let mut visited = BTreeSet::new();
+        let mut ids = vec![bundle_id];
+        while let Some(id) = ids.pop() {
+            if valid.contains(&id) || !visited.insert(id) {
+                continue;
+            }
+            let (witness_ids, _) = self.index.bundle_info(id)?;
+            self.state.select_valid_witness(witness_ids)?;
+            for transition in self.stash.bundle(id)?.known_transitions.values() {
+                for input in transition.inputs().iter() {
+                    if input.prev_out.op != contract_id {
+                        ids.push(self.index.bundle_id_for_op(input.prev_out.op)?);
+                    }
+                }
+            }
+        }
+        valid.extend(visited);
+        Ok(())
+    }
+
     fn client_bundle(&self, bundle_id: BundleId) -> Result<ClientBundle, StockError<S, H, P>> {
         let (witness_ids, contract_id) = self.index.bundle_info(bundle_id)?;
 
-- 
2.43.0

