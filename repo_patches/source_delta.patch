From 74f60d1b4684f81309c1027059f05eeebc4c3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 01/20] fix: pass permitted_drift and
 max_canister_storage_threshold to Data::new in the right order

---
 src/core_nft/src/lifecycle/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index a384e9f..6bdf194 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -84,8 +84,8 @@ fn init(args: Args) {
                 init_args.max_memo_size,
                 init_args.atomic_batch_transfers,
                 init_args.tx_window.clone(),
-                init_args.permitted_drift,
                 init_args.max_canister_storage_threshold,
+                init_args.permitted_drift,
                 init_args.approval_init.clone(),
             );
 
-- 
2.43.0


From f22fda1ede2f8b7c1e18b18065cb3ed590ba0bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 02/20] fix: burning a token also removes it from its owner's
 index and drops its approvals

---
 src/core_nft/src/updates/management.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index bce3aee..2f37442 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -7,6 +7,8 @@ use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFile
 use crate::types::http::add_redirection;
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
+use crate::types::wrapped_types::WrappedNat;
+use crate::types::__TOKEN_APPROVALS;
 use crate::types::{icrc7, management, nft};
 use crate::utils::{check_memo, trace};
 
@@ -365,6 +367,13 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
 
     mutate_state(|state| {
         state.data.tokens_list.remove(&token_id);
+        if let Some(ids) = state.data.tokens_list_by_owner.get_mut(&token.token_owner) {
+            ids.retain(|id| *id != token_id);
+        }
+    });
+
+    __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+        token_approvals.remove(&WrappedNat::from(token_id.clone()));
     });
 
     Ok(())
-- 
2.43.0


From 8e7490a75a6c727cfe7da7982b13b63cd1b10277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 03/20] fix: a direct transfer drops the token's approvals

---
 src/core_nft/src/updates/icrc7.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 5c990d6..a68de2e 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -2,7 +2,7 @@ use crate::utils::check_memo;
 use crate::utils::trace;
 use crate::{
     state::{icrc3_add_transaction, mutate_state, read_state},
-    types::icrc7,
+    types::{icrc7, wrapped_types::WrappedNat, __TOKEN_APPROVALS},
 };
 use bity_ic_icrc3::transaction::{ICRC7Transaction, ICRC7TransactionData};
 use candid::{Nat, Principal};
@@ -99,6 +99,9 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
                     .or_insert(vec![])
                     .retain(|id| *id != nft.token_id.clone());
             });
+            __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+                token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
+            });
             Ok(Nat::from(transaction_id))
         }
         Err(e) => {
-- 
2.43.0


From 627269873b9f0d0034a29e2b494116245a6a9847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 04/20] fix: a duplicate direct transfer is answered with the
 Duplicate error, not Ok

---
 src/core_nft/src/updates/icrc7.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index a68de2e..8aa4d60 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -106,7 +106,9 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
         }
         Err(e) => {
             if let bity_ic_icrc3::types::Icrc3Error::DuplicateTransaction { duplicate_of } = e {
-                return Ok(Nat::from(duplicate_of));
+                return Err(icrc7::icrc7_transfer::TransferError::Duplicate {
+                    duplicate_of: Nat::from(duplicate_of),
+                });
             }
             Err(icrc7::icrc7_transfer::TransferError::GenericError {
                 error_code: Nat::from(2u64),
-- 
2.43.0


From ff0b67da3fdf2e3a65c85d1f24ab4e02195e4737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 05/20] fix: revoking collection approvals honours
 from_subaccount

---
 src/core_nft/src/updates/icrc37.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index e21b1db..0f48d22 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -583,7 +583,7 @@ fn revoke_collection_approvals(
 
     let from_account = Account {
         owner: caller,
-        subaccount: None,
+        subaccount: arg.from_subaccount,
     };
 
     let collection_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
-- 
2.43.0


From 981437f8b1acb4a84ab116b4d975890481c3eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 06/20] fix: a delegated transfer keeps the collection
 approvals of an account that still owns tokens

---
 src/core_nft/src/updates/icrc37.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 0f48d22..6cdeb98 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -835,10 +835,12 @@ fn transfer_from(
         token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
     });
 
-    let has_nfts = __TOKEN_APPROVALS.with_borrow(|token_approvals| {
-        token_approvals
-            .get(&WrappedNat::from(arg.token_id.clone()))
-            .is_some()
+    let has_nfts = read_state(|state| {
+        state
+            .data
+            .tokens_list_by_owner
+            .get(&arg.from)
+            .is_some_and(|ids| !ids.is_empty())
     });
 
     if !has_nfts {
-- 
2.43.0


From 544ce5f6b293f182bd91d593d7782f046d847bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 07/20] fix: a delegated transfer refuses every account of the
 anonymous principal, as the direct transfer does

---
 src/core_nft/src/updates/icrc37.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 6cdeb98..d9b522d 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -699,12 +699,7 @@ fn transfer_from(
         return TransferFromResult::Err(TransferFromError::InvalidRecipient);
     }
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.to == anonymous_account {
+    if arg.to.owner == Principal::anonymous() {
         return TransferFromResult::Err(TransferFromError::InvalidRecipient);
     }
 
-- 
2.43.0


From a9ef9f524d2b07e8da57e76cb57cb1d041fbfef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 08/20] fix: token approval revocations are rate limited per
 item, and an empty batch no longer traps

---
 src/core_nft/src/updates/icrc37.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index d9b522d..a6ce948 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -382,18 +382,6 @@ fn icrc37_revoke_token_approvals(
 ) -> icrc37_revoke_token_approvals::Response {
     let caller = ic_cdk::api::msg_caller();
 
-    match guard_sliding_window(args[0].token_id.clone()) {
-        Err(e) => {
-            return icrc37_revoke_token_approvals::Response::Err(
-                icrc37_revoke_token_approvals::RevokeTokenApprovalError::GenericError {
-                    error_code: Nat::from(0u64),
-                    message: e,
-                },
-            );
-        }
-        Ok(()) => {}
-    }
-
     // here we check the max revoke approvals,
     // note that if spender is not provided, we will revoke all approvals for the token
     // even if the max revoke approvals is 0.
@@ -426,6 +414,16 @@ fn revoke_token_approvals(
 ) -> icrc37_revoke_token_approvals::RevokeTokenApprovalResponse {
     use icrc37_revoke_token_approvals::{RevokeTokenApprovalError, RevokeTokenApprovalResponse};
 
+    match guard_sliding_window(arg.token_id.clone()) {
+        Ok(()) => {}
+        Err(e) => {
+            return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::GenericError {
+                error_code: Nat::from(0u64),
+                message: e,
+            });
+        }
+    }
+
     if let Some(created_at_time) = arg.created_at_time {
         match verify_approval_timing(created_at_time, current_time) {
             Err((true, ledger_time)) => {
-- 
2.43.0


From 94eb951c195cacdc49baa5a77b56efea4b30bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 09/20] fix: icrc37_is_approved looks up collection approvals
 under the token's owner and ignores expired ones

---
 src/core_nft/src/queries/icrc37.rs | 43 +++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 2cd6bc7..55fea0e 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -143,10 +143,7 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
 
         for arg in args {
             let spender_account = arg.spender.clone();
-            let from_account = Account {
-                owner: arg.spender.owner,
-                subaccount: arg.from_subaccount,
-            };
+            let owner = state.data.owner_of(&arg.token_id);
 
             let current_time = ic_cdk::api::time();
 
@@ -178,16 +175,29 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
 
             trace(&format!("has_token_approval: {:?}", has_token_approval));
 
-            let has_collection_approval = __COLLECTION_APPROVALS
-                .with_borrow(|collection_approvals| {
-                    collection_approvals.get(&WrappedAccount::from(spender_account.clone()))
+            let has_collection_approval = owner
+                .filter(|owner| {
+                    *owner
+                        == Account {
+                            owner: owner.owner,
+                            subaccount: arg.from_subaccount,
+                        }
                 })
-                .map(|approval_map| approval_map.0)
-                .unwrap_or(HashMap::new())
-                .iter()
-                .any(|(account, _approval)| {
-                    account.0.owner == spender_account.owner
-                        && account.0.subaccount == spender_account.subaccount
+                .and_then(|owner| {
+                    __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
+                        collection_approvals.get(&WrappedAccount::from(owner))
+                    })
+                })
+                .and_then(|approval_map| {
+                    approval_map
+                        .0
+                        .get(&WrappedAccount::from(spender_account))
+                        .cloned()
+                })
+                .is_some_and(|approval| {
+                    approval
+                        .expires_at
+                        .map_or(true, |expires_at| expires_at > current_time)
                 });
 
             trace(&format!(
@@ -195,12 +205,13 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
                 has_collection_approval
             ));
 
-            let owner = state.data.owner_of(&arg.token_id);
-            let is_owner = owner == Some(from_account);
+            let is_owner = owner == Some(spender_account);
 
             trace(&format!("is_owner: {:?}", is_owner));
 
-            response.push(is_owner || has_token_approval || has_collection_approval);
+            response.push(
+                owner.is_some() && (is_owner || has_token_approval || has_collection_approval),
+            );
         }
 
         response
-- 
2.43.0


From 6b81804838bc97f3373aa114722210bdc532313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 10/20] fix: approval listings report the approving subaccount,
 in a stable order, and honour huge page sizes

---
 src/core_nft/src/queries/icrc37.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 55fea0e..1abfe7a 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -20,7 +20,7 @@ fn icrc37_get_token_approvals(
     let mut response = Vec::new();
 
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     if let Some(approvals_map) = __TOKEN_APPROVALS
@@ -30,11 +30,11 @@ fn icrc37_get_token_approvals(
             .0
             .iter()
             .map(
-                |(account, approval)| icrc37_get_token_approvals::TokenApproval {
+                |(_, approval)| icrc37_get_token_approvals::TokenApproval {
                     token_id: token_id.clone(),
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
@@ -47,6 +47,7 @@ fn icrc37_get_token_approvals(
             b.approval_info
                 .created_at_time
                 .cmp(&a.approval_info.created_at_time)
+                .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
         });
 
         let start_index = if let Some(prev_approval) = prev {
@@ -82,7 +83,7 @@ fn icrc37_get_collection_approvals(
 ) -> icrc37_get_collection_approvals::Response {
     let mut response = Vec::new();
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     let mut all_approvals: Vec<icrc37_get_collection_approvals::CollectionApproval> =
@@ -94,10 +95,10 @@ fn icrc37_get_collection_approvals(
             .unwrap_or(HashMap::new())
             .iter()
             .map(
-                |(account, approval)| icrc37_get_collection_approvals::CollectionApproval {
+                |(_, approval)| icrc37_get_collection_approvals::CollectionApproval {
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
@@ -110,6 +111,7 @@ fn icrc37_get_collection_approvals(
         b.approval_info
             .created_at_time
             .cmp(&a.approval_info.created_at_time)
+            .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
     });
 
     let start_index = if let Some(prev_approval) = prev {
-- 
2.43.0


From 1b119702545d44a7bacf0805ad07e0a975e47691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 11/20] fix: a mint refused by the log leaves neither metadata
 nor log blocks behind

---
 src/core_nft/src/updates/management.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 2f37442..22fb222 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -172,9 +172,7 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
     for (i, mint_request) in req.mint_requests.iter().enumerate() {
         let token_id = current_token_id.clone() + Nat::from(i as u64);
 
-        let mut new_token =
-            nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
-        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+        let new_token = nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
 
         let transaction = ICRC7Transaction::new(
             "7mint".to_string(),
@@ -190,14 +188,23 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
             },
         );
 
-        new_tokens.push((token_id, new_token, mint_request.token_owner.clone()));
+        new_tokens.push((
+            token_id,
+            new_token,
+            mint_request.token_owner.clone(),
+            mint_request.metadata.clone(),
+        ));
         transactions.push(transaction);
     }
 
-    for transaction in transactions {
+    for (logged, transaction) in transactions.into_iter().enumerate() {
         match icrc3_add_transaction(transaction) {
             Ok(_) => {}
             Err(e) => {
+                // blocks of this batch are already in the log: roll them back.
+                if logged > 0 {
+                    ic_cdk::trap(&format!("Failed to log transaction: {}", e));
+                }
                 return Err(management::mint::MintError::StorageCanisterError(
                     e.to_string(),
                 ));
@@ -210,7 +217,8 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
             current_token_id.clone() + Nat::from(req.mint_requests.len() as u64);
         state.data.last_token_id = new_last_token_id;
 
-        for (token_id, new_token, token_owner) in new_tokens {
+        for (token_id, mut new_token, token_owner, metadata) in new_tokens {
+            __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, metadata));
             state.data.tokens_list.insert(token_id.clone(), new_token);
             state
                 .data
-- 
2.43.0


From 9268de0d4c72832b3af67051d14ef54fe64712ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 12/20] fix: a metadata update refused by the log leaves the
 metadata as it was

---
 src/core_nft/src/updates/management.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 22fb222..fe3005b 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -257,11 +257,6 @@ pub fn update_nft_metadata(
             let previous_metadata =
                 __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
 
-            __METADATA.with_borrow_mut(|m| token.replace_metadata(m, req.metadata));
-
-            let new_metadata =
-                __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
-
             let mut metadata_map = BTreeMap::new();
 
             metadata_map.insert(
@@ -277,13 +272,7 @@ pub fn update_nft_metadata(
 
             metadata_map.insert(
                 "icrc7:new_metadata".to_string(),
-                Icrc3Value::Map(
-                    new_metadata
-                        .unwrap_or_default()
-                        .into_iter()
-                        .map(|(k, v)| (k, v.0))
-                        .collect(),
-                ),
+                Icrc3Value::Map(req.metadata.iter().cloned().collect()),
             );
 
             let meta = Icrc3Value::Map(metadata_map);
@@ -314,6 +303,8 @@ pub fn update_nft_metadata(
                 }
             };
 
+            __METADATA.with_borrow_mut(|m| token.replace_metadata(m, req.metadata));
+
             mutate_state(|state| {
                 state
                     .data
-- 
2.43.0


From 6189e3b752bd7ba62b01247a6ddf2b84887f6274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:49 +0000
Subject: [PATCH 13/20] fix: an upgrade releases the lock of a management call
 it interrupts

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 746684b..6db3c06 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -48,6 +48,8 @@ fn post_upgrade(args: Args) {
 
             state.env.set_version(upgrade_args.version);
             state.env.set_commit_hash(upgrade_args.commit_hash);
+            // a management call interrupted by the upgrade never resumes: do not keep its lock.
+            state.principal_guards.clear();
 
             bity_ic_canister_logger::init_with_logs(state.env.is_test_mode(), logs, traces);
             init_canister(state.clone());
-- 
2.43.0


From cc1494007decd3550030a8bc03c7ecc8003768bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 14/20] fix: index transfer-from blocks under the token they
 move

---
 src/index_icrc7/src/blocks.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index aee2cd0..838b99c 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -354,7 +354,20 @@ impl TransactionDataExtractor for TransferFromBlock {
     }
 
     fn extract_token_id(&self, data: &ICRC3Value) -> Result<Option<WrappedNat>, String> {
-        return Ok(None);
+        match data {
+            ICRC3Value::Map(map) => {
+                if let Some(ICRC3Value::Map(tx)) = map.get("tx") {
+                    if let Some(ICRC3Value::Nat(token_id)) = tx.get("tid") {
+                        Ok(Some(WrappedNat(token_id.clone())))
+                    } else {
+                        Err("Missing or invalid token ID field".to_string())
+                    }
+                } else {
+                    Err("Invalid transaction data".to_string())
+                }
+            }
+            _ => Err("TransferFrom transaction data must be a map".to_string()),
+        }
     }
 }
 
-- 
2.43.0


From 5a072f5183f8bf0e6bde79a0048aa9a8d317d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 15/20] fix: index collection approvals under the spender they
 name

---
 src/index_icrc7/src/blocks.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index 838b99c..99f8a65 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -418,6 +418,11 @@ impl TransactionDataExtractor for CollectionApproveBlock {
                             accounts.push(account);
                         }
                     }
+                    if let Some(ICRC3Value::Text(spender)) = tx.get("spender") {
+                        if let Ok(account) = WrappedAccount::from_str(spender) {
+                            accounts.push(account);
+                        }
+                    }
                 }
                 Ok(accounts)
             }
-- 
2.43.0


From ce2b135ba76e434abc20930443abbde4ca94a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 16/20] fix: index a block once under an account it names twice

---
 src/index_icrc7/src/index.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/index.rs b/src/index_icrc7/src/index.rs
index 0c70b1d..8d289b8 100644
--- a/src/index_icrc7/src/index.rs
+++ b/src/index_icrc7/src/index.rs
@@ -100,7 +100,10 @@ pub fn add_block_to_index(block: &BlockWithId) -> Result<(), String> {
     __INDEX.with(|index| {
         let mut index_mut = index.borrow_mut();
 
-        for account in &accounts {
+        for (i, account) in accounts.iter().enumerate() {
+            if accounts[..i].contains(account) {
+                continue;
+            }
             let account_key = IndexType::Account(account.clone());
             let account_values = index_mut
                 .get(&account_key)
-- 
2.43.0


From b9164c69eeb476a4423da509ab88e21a3b08ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 17/20] fix: block pages at large offsets and lengths

---
 src/index_icrc7/src/update/get_blocks.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/index_icrc7/src/update/get_blocks.rs b/src/index_icrc7/src/update/get_blocks.rs
index 1bc0ff6..f721df9 100644
--- a/src/index_icrc7/src/update/get_blocks.rs
+++ b/src/index_icrc7/src/update/get_blocks.rs
@@ -17,7 +17,7 @@ pub async fn get_blocks(args: get_blocks::Args) -> get_blocks::Response {
             start = read_state(|state| state.data.last_block_id).saturating_sub(length);
         }
 
-        let block_range: Vec<u64> = (start..start + length).collect();
+        let block_range: Vec<u64> = (start..start.saturating_add(length)).collect();
         match get_all_blocks(block_range, Some(sort_by.clone())).await {
             Ok(gblocks) => gblocks,
             Err(e) => {
@@ -67,8 +67,8 @@ async fn get_blocks_with_filters(
 
     combined_block_ids.sort();
 
-    let start_idx = start as usize;
-    let end_idx = (start + length) as usize;
+    let start_idx = usize::try_from(start).unwrap_or(usize::MAX);
+    let end_idx = usize::try_from(start.saturating_add(length)).unwrap_or(usize::MAX);
 
     if start_idx >= combined_block_ids.len() {
         return Vec::new();
-- 
2.43.0


From c3eae4e33072652a4295112e7ac536441d7a58c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 18/20] fix: cleaning the block cache panicked whenever there
 was something to remove

---
 src/index_icrc7/src/cache.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/index_icrc7/src/cache.rs b/src/index_icrc7/src/cache.rs
index cf8e02f..7232467 100644
--- a/src/index_icrc7/src/cache.rs
+++ b/src/index_icrc7/src/cache.rs
@@ -68,16 +68,16 @@ pub fn try_get_value_with_timestamp(key: u64) -> Option<(u64, CustomValue)> {
 
 pub fn remove_all_values_older_than(timestamp: &u64) -> bool {
     __CACHE.with(|cache| {
-        cache
+        let keys = cache
             .borrow()
             .iter()
             .filter(|(_, entry)| entry.timestamp < *timestamp)
             .map(|(key, _)| key)
-            .collect::<Vec<_>>()
-            .into_iter()
-            .for_each(|key| {
-                cache.borrow_mut().remove(&key);
-            });
+            .collect::<Vec<_>>();
+
+        keys.into_iter().for_each(|key| {
+            cache.borrow_mut().remove(&key);
+        });
 
         true
     })
-- 
2.43.0


From 75d4e80fc844fddcd266def7cea37e825a2871ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 19/20] fix: overlapping index updates indexed blocks twice,
 missing blocks were skipped

---
 src/index_icrc7/src/jobs.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/index_icrc7/src/jobs.rs b/src/index_icrc7/src/jobs.rs
index 40df08e..d4463b8 100644
--- a/src/index_icrc7/src/jobs.rs
+++ b/src/index_icrc7/src/jobs.rs
@@ -41,9 +41,18 @@ async fn update_index() {
     let block_ids: Vec<u64> = (last_block_id..last_block_id + BLOCK_BATCH_SIZE).collect();
 
     let blocks = get_all_blocks(block_ids, None).await;
+
+    // another run of this job may have indexed these blocks while this one was waiting
+    if read_state(|state| state.data.last_block_id) != last_block_id {
+        return;
+    }
+
     match blocks {
         Ok(blocks) => {
             for block in blocks {
+                if block.id != last_block_id {
+                    break;
+                }
                 match add_block_to_index(&block) {
                     Ok(_) => {
                         last_block_id += 1;
-- 
2.43.0


From 4b136c8193b8b79b3892a72d9e65ba719f712b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:39 +0000
Subject: [PATCH 20/20] fix: the upload tool lost bytes when a read returned
 less than a chunk

---
 cmdline/src/calls/uploads.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cmdline/src/calls/uploads.rs b/cmdline/src/calls/uploads.rs
index 9abc29e..206b46d 100644
--- a/cmdline/src/calls/uploads.rs
+++ b/cmdline/src/calls/uploads.rs
@@ -82,14 +82,13 @@ pub async fn upload_file(
     let total_chunks = (file_size + chunk_size - 1) / chunk_size;
 
     for i in 0..total_chunks {
-        let mut chunk_data = vec![0; chunk_size as usize];
-        let bytes_read = file.read(&mut chunk_data)?;
-        if bytes_read == 0 {
+        // a single read may return less than what is left of the chunk
+        let mut chunk_data = Vec::new();
+        (&mut file).take(chunk_size).read_to_end(&mut chunk_data)?;
+        if chunk_data.is_empty() {
             break;
         }
 
-        chunk_data.truncate(bytes_read);
-
         store(
             &agent,
             &canister_id,
-- 
2.43.0

