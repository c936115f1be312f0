From 125c1f4f1dc0647deca6dd8b12e626c57f8f6bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 01/14] fix: emit the chain unfrozen event when a chain is
 unfrozen

---
 contracts/connection-router/src/contract/execute.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/connection-router/src/contract/execute.rs b/contracts/connection-router/src/contract/execute.rs
index 25745f5..812b31b 100644
--- a/contracts/connection-router/src/contract/execute.rs
+++ b/contracts/connection-router/src/contract/execute.rs
@@ -6,7 +6,9 @@ use itertools::Itertools;
 
 use axelar_wasm_std::flagset::FlagSet;
 
-use crate::events::{ChainFrozen, ChainRegistered, GatewayInfo, GatewayUpgraded, MessageRouted};
+use crate::events::{
+    ChainFrozen, ChainRegistered, ChainUnfrozen, GatewayInfo, GatewayUpgraded, MessageRouted,
+};
 use crate::msg::ExecuteMsg;
 use crate::state::{
     chain_endpoints, ChainEndpoint, ChainName, Gateway, GatewayDirection, Message, Store, CONFIG,
@@ -100,7 +102,7 @@ pub fn unfreeze_chain(
             Ok(chain)
         }
     })?;
-    Ok(Response::new().add_event(ChainFrozen { name: chain }.into()))
+    Ok(Response::new().add_event(ChainUnfrozen { name: chain }.into()))
 }
 
 pub fn require_admin(deps: &DepsMut, info: MessageInfo) -> Result<(), ContractError> {
-- 
2.43.0


From 32584e2cff3afebf45c9a4f61f7b427c6e0e05d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 02/14] fix: route a message to nexus once even when it is
 repeated within a batch

---
 contracts/nexus-gateway/src/contract/execute.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/contracts/nexus-gateway/src/contract/execute.rs b/contracts/nexus-gateway/src/contract/execute.rs
index c848d6e..157c528 100644
--- a/contracts/nexus-gateway/src/contract/execute.rs
+++ b/contracts/nexus-gateway/src/contract/execute.rs
@@ -51,14 +51,12 @@ where
             .into_iter()
             .filter_map(|msg| match self.store.is_message_routed(&msg.cc_id) {
                 Ok(true) => None,
-                Ok(false) => Some(Ok(msg)),
+                // mark right away, so that a later copy in the same batch is recognised
+                Ok(false) => Some(self.store.set_message_routed(&msg.cc_id).map(|_| msg)),
                 Err(err) => Some(Err(err)),
             })
             .collect::<Result<Vec<_>>>()?;
 
-        msgs.iter()
-            .try_for_each(|msg| self.store.set_message_routed(&msg.cc_id))?;
-
         let msgs: Vec<nexus::Message> = msgs.into_iter().map(Into::into).collect();
 
         Ok(Response::new().add_messages(msgs))
-- 
2.43.0


From 58ed9ab86d1ad73a6c9cd3828e5ade52892d744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 03/14] fix: look up the requested worker of the requested
 service in the worker query

---
 contracts/service-registry/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 9fa129e..07775b4 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -337,7 +337,7 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> Result<Binary, ContractErr
         QueryMsg::GetWorker {
             service_name,
             worker,
-        } => to_binary(&query::get_worker(deps, worker, service_name)?).map_err(|err| err.into()),
+        } => to_binary(&query::get_worker(deps, service_name, worker)?).map_err(|err| err.into()),
         QueryMsg::GetService { service_name } => {
             to_binary(&query::get_service(deps, service_name)?).map_err(|err| err.into())
         }
-- 
2.43.0


From 7a2429f8eae893e9858427f64d67a1e20b2ad68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 04/14] fix: refuse to bond when funds of another denomination
 are attached

---
 contracts/service-registry/src/contract.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 07775b4..92cd140 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -209,6 +209,7 @@ pub mod execute {
             info.funds
                 .iter()
                 .find(|coin| coin.denom == service.bond_denom)
+                .filter(|_| info.funds.len() == 1) // other funds must not be silently swallowed
                 .ok_or(ContractError::WrongDenom)?
                 .amount
         } else {
-- 
2.43.0


From cb368a89ef6ccee0c143a3f3c599965b3f09f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 05/14] fix: refuse to create a bonded worker without any bond

---
 contracts/service-registry/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 92cd140..60f630a 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -227,7 +227,7 @@ pub mod execute {
                     }),
                     None => Ok(Worker {
                         address: info.sender,
-                        bonding_state: BondingState::Bonded { amount: bond },
+                        bonding_state: BondingState::Unbonded.add_bond(bond)?,
                         authorization_state: AuthorizationState::NotAuthorized,
                         service_name,
                     }),
-- 
2.43.0


From 7292889356d2c34392e9a67d86b3c8639b4e7833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 06/14] fix: refuse zero when deserialising nonempty integers
 and timestamps

---
 packages/axelar-wasm-std/src/nonempty/timestamp.rs | 1 +
 packages/axelar-wasm-std/src/nonempty/uint.rs      | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/packages/axelar-wasm-std/src/nonempty/timestamp.rs b/packages/axelar-wasm-std/src/nonempty/timestamp.rs
index 2501f8c..b984685 100644
--- a/packages/axelar-wasm-std/src/nonempty/timestamp.rs
+++ b/packages/axelar-wasm-std/src/nonempty/timestamp.rs
@@ -2,6 +2,7 @@ use crate::nonempty::Error;
 use cosmwasm_schema::cw_serde;
 
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Timestamp")]
 pub struct Timestamp(cosmwasm_std::Timestamp);
 
 impl TryFrom<cosmwasm_std::Timestamp> for Timestamp {
diff --git a/packages/axelar-wasm-std/src/nonempty/uint.rs b/packages/axelar-wasm-std/src/nonempty/uint.rs
index 862c782..91e48b8 100644
--- a/packages/axelar-wasm-std/src/nonempty/uint.rs
+++ b/packages/axelar-wasm-std/src/nonempty/uint.rs
@@ -49,6 +49,7 @@ impl fmt::Display for Uint64 {
 
 // TODO: consider using macro for these types
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Uint256")]
 #[derive(Copy, PartialOrd, Eq)]
 pub struct Uint256(cosmwasm_std::Uint256);
 
@@ -89,6 +90,7 @@ impl AsRef<cosmwasm_std::Uint256> for Uint256 {
 }
 
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Uint128")]
 #[derive(Copy, PartialOrd, Eq)]
 pub struct Uint128(cosmwasm_std::Uint128);
 
-- 
2.43.0


From 272efafe7a5b9dcf969b5702dd67a4df9721d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 07/14] fix: report an unreadable counter instead of restarting
 it

---
 packages/axelar-wasm-std/src/counter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/axelar-wasm-std/src/counter.rs b/packages/axelar-wasm-std/src/counter.rs
index fb232bb..265dadf 100644
--- a/packages/axelar-wasm-std/src/counter.rs
+++ b/packages/axelar-wasm-std/src/counter.rs
@@ -22,7 +22,7 @@ impl<'a, T: AddAssign + Copy + Default + One + Serialize + DeserializeOwned> Cou
     }
 
     pub fn incr(&self, store: &mut dyn Storage) -> StdResult<T> {
-        let mut value = self.cur(store);
+        let mut value = self.item.may_load(store)?.unwrap_or_default();
         value += T::one();
         self.item.save(store, &value)?;
         Ok(value)
-- 
2.43.0


From c91e5832b2ed5283faa88f2838320182cdc369c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 08/14] fix: report unreadable epoch tallies instead of
 skipping them

---
 contracts/rewards/src/contract/execute.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/contracts/rewards/src/contract/execute.rs b/contracts/rewards/src/contract/execute.rs
index d89d0ed..18b180a 100644
--- a/contracts/rewards/src/contract/execute.rs
+++ b/contracts/rewards/src/contract/execute.rs
@@ -149,7 +149,7 @@ where
         from: u64,
         to: u64,
     ) -> Result<HashMap<Addr, Uint128>, ContractError> {
-        let rewards = self.cumulate_rewards(&target_contract, from, to);
+        let rewards = self.cumulate_rewards(&target_contract, from, to)?;
         self.store
             .load_rewards_pool(target_contract.clone())?
             .sub_reward(rewards.values().sum())?
@@ -163,10 +163,11 @@ where
         target_contract: &Addr,
         from: u64,
         to: u64,
-    ) -> HashMap<Addr, Uint128> {
+    ) -> Result<HashMap<Addr, Uint128>, ContractError> {
         self.iterate_epoch_tallies(target_contract, from, to)
-            .map(|tally| tally.rewards_by_worker())
-            .fold(HashMap::new(), merge_rewards)
+            .try_fold(HashMap::new(), |rewards, tally| {
+                Ok(merge_rewards(rewards, tally?.rewards_by_worker()))
+            })
     }
 
     fn iterate_epoch_tallies<'a>(
@@ -174,11 +175,11 @@ where
         target_contract: &'a Addr,
         from: u64,
         to: u64,
-    ) -> impl Iterator<Item = EpochTally> + 'a {
+    ) -> impl Iterator<Item = Result<EpochTally, ContractError>> + 'a {
         (from..=to).filter_map(|epoch_num| {
             self.store
                 .load_epoch_tally(target_contract.clone(), epoch_num)
-                .unwrap_or_default()
+                .transpose()
         })
     }
 
-- 
2.43.0


From 1390748342d4afdcddf5e6ec68b3f8e681487ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 09/14] fix: do not replace a pending worker set that cannot be
 read

---
 contracts/multisig-prover/src/execute.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/contracts/multisig-prover/src/execute.rs b/contracts/multisig-prover/src/execute.rs
index 3fe06fe..f4fca1b 100644
--- a/contracts/multisig-prover/src/execute.rs
+++ b/contracts/multisig-prover/src/execute.rs
@@ -289,12 +289,15 @@ pub fn should_update_worker_set(
 // worker set pending or if the pending set is the same. We can't use direct comparison
 // because the created_at might be different, so we compare only the signers and threshold.
 fn different_set_in_progress(storage: &dyn Storage, new_worker_set: &WorkerSet) -> bool {
-    if let Ok(Some(next_worker_set)) = NEXT_WORKER_SET.may_load(storage) {
-        return next_worker_set.signers != new_worker_set.signers
-            || next_worker_set.threshold != new_worker_set.threshold;
+    match NEXT_WORKER_SET.may_load(storage) {
+        Ok(Some(next_worker_set)) => {
+            next_worker_set.signers != new_worker_set.signers
+                || next_worker_set.threshold != new_worker_set.threshold
+        }
+        Ok(None) => false,
+        // a pending set that cannot be read must not be replaced
+        Err(_) => true,
     }
-
-    false
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1716ba47505043e1a3e2e05c7e9e4c81270be056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 10/14] fix: answer the aggregate verifier's verification query
 with the verifier's statuses

---
 contracts/aggregate-verifier/src/contract.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/contracts/aggregate-verifier/src/contract.rs b/contracts/aggregate-verifier/src/contract.rs
index 09b1b0a..f6d8e26 100644
--- a/contracts/aggregate-verifier/src/contract.rs
+++ b/contracts/aggregate-verifier/src/contract.rs
@@ -99,10 +99,12 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> StdResult<Binary> {
     match msg {
         QueryMsg::IsVerified { messages } => {
             let verifier = CONFIG.load(deps.storage)?.verifier;
-            deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
-                contract_addr: verifier.to_string(),
-                msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
-            }))
+            let statuses: Vec<(CrossChainId, bool)> =
+                deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
+                    contract_addr: verifier.to_string(),
+                    msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
+                }))?;
+            to_binary(&statuses)
         }
     }
 }
-- 
2.43.0


From 02735235bcca06182fd39797734fb311cbc2c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 11/14] fix: derive the batch id from the list of message ids,
 not from their joined text

Message ids may contain the separator, so two different lists of messages
could share a batch id and a batch built for one list was reused for the other.
---
 contracts/multisig-prover/src/types.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/multisig-prover/src/types.rs b/contracts/multisig-prover/src/types.rs
index 390ec18..f2ef757 100644
--- a/contracts/multisig-prover/src/types.rs
+++ b/contracts/multisig-prover/src/types.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 use axelar_wasm_std::{Participant, Snapshot};
 use connection_router::state::CrossChainId;
 use cosmwasm_schema::cw_serde;
-use cosmwasm_std::{from_binary, HexBinary, StdResult, Uint256};
+use cosmwasm_std::{from_binary, to_binary, HexBinary, StdResult, Uint256};
 use cw_storage_plus::{Key, KeyDeserialize, PrimaryKey};
 use multisig::{
     key::{PublicKey, Signature},
@@ -80,7 +80,9 @@ impl BatchId {
         if let Some(new_worker_set) = new_worker_set {
             message_ids.push(new_worker_set.hash().to_string())
         }
-        Keccak256::digest(message_ids.join(",")).as_slice().into()
+        // ids can contain any separator, so hash their serialized list instead of joining them
+        let message_ids = to_binary(&message_ids).expect("couldn't serialize message ids");
+        Keccak256::digest(message_ids.as_slice()).as_slice().into()
     }
 }
 
-- 
2.43.0


From 120738c4dc7a2e8fc2ddc5fee4503e634f2e2a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 12/14] fix: validate the address of a caller before
 authorizing it

---
 contracts/multisig/src/contract.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/multisig/src/contract.rs b/contracts/multisig/src/contract.rs
index 74bab93..d38bf95 100644
--- a/contracts/multisig/src/contract.rs
+++ b/contracts/multisig/src/contract.rs
@@ -227,6 +227,7 @@ pub mod execute {
         deps: DepsMut,
         contract_address: Addr,
     ) -> Result<Response, ContractError> {
+        let contract_address = deps.api.addr_validate(contract_address.as_str())?;
         AUTHORIZED_CALLERS.save(deps.storage, &contract_address, &())?;
 
         Ok(Response::new().add_event(Event::CallerAuthorized { contract_address }.into()))
-- 
2.43.0


From dead645ff00acc03574a6ac058b6516f1b6a2639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 13/14] fix: validate the contract address of a service before
 registering it

---
 contracts/service-registry/src/contract.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 60f630a..6909da0 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -136,6 +136,7 @@ pub mod execute {
         unbonding_period_days: u16,
         description: String,
     ) -> Result<Response, ContractError> {
+        let service_contract = deps.api.addr_validate(service_contract.as_str())?;
         let key = &service_name.clone();
 
         SERVICES.update(
-- 
2.43.0


From 15097591b01faf6b8e7ea931d5814a646fcb1585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 14/14] fix: keep a batch that is already being signed as it is

---
 contracts/multisig-prover/src/execute.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contracts/multisig-prover/src/execute.rs b/contracts/multisig-prover/src/execute.rs
index f4fca1b..6ccc57a 100644
--- a/contracts/multisig-prover/src/execute.rs
+++ b/contracts/multisig-prover/src/execute.rs
@@ -48,9 +48,14 @@ pub fn construct_proof(
             }
             let batch = builder.build()?;
 
-            COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
-
-            batch
+            match COMMANDS_BATCH.may_load(deps.storage, &batch.id)? {
+                // already being signed, possibly with the messages in another order
+                Some(stored) => stored,
+                None => {
+                    COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
+                    batch
+                }
+            }
         }
     };
 
-- 
2.43.0

