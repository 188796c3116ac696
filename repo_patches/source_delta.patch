From b4c7cd8142cbf2b7d4182abda20a8ac8c4172009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 01/52] fix: burn_nft removes the token from its owner's
 balance and drops its approvals

---
 src/core_nft/src/updates/management.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index bce3aee..b80dff5 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -7,7 +7,7 @@ use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFile
 use crate::types::http::add_redirection;
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
-use crate::types::{icrc7, management, nft};
+use crate::types::{icrc7, management, nft, WrappedNat, __TOKEN_APPROVALS};
 use crate::utils::{check_memo, trace};
 
 pub use crate::types::management::{
@@ -365,6 +365,17 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
 
     mutate_state(|state| {
         state.data.tokens_list.remove(&token_id);
+        if let Some(ids) = state
+            .data
+            .tokens_list_by_owner
+            .get_mut(&token.token_owner)
+        {
+            ids.retain(|id| *id != token_id);
+        }
+    });
+
+    __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+        token_approvals.remove(&WrappedNat::from(token_id.clone()));
     });
 
     Ok(())
-- 
2.43.0


From 866ea23989e36d6bda8e492c53f5d93eddd46224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 02/52] fix: icrc7_transfer drops the token approvals of the
 previous owner

---
 src/core_nft/src/updates/icrc7.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 5c990d6..14d2818 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -2,7 +2,7 @@ use crate::utils::check_memo;
 use crate::utils::trace;
 use crate::{
     state::{icrc3_add_transaction, mutate_state, read_state},
-    types::icrc7,
+    types::{icrc7, WrappedNat, __TOKEN_APPROVALS},
 };
 use bity_ic_icrc3::transaction::{ICRC7Transaction, ICRC7TransactionData};
 use candid::{Nat, Principal};
@@ -99,6 +99,10 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
                     .or_insert(vec![])
                     .retain(|id| *id != nft.token_id.clone());
             });
+            // a change of owner ends the approvals given by the previous owner
+            __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+                token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
+            });
             Ok(Nat::from(transaction_id))
         }
         Err(e) => {
-- 
2.43.0


From ebbfd659770bc8a35b4401fe09a28090d6b9555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 03/52] fix: icrc7_transfer requires from_subaccount to name
 the owner account

---
 src/core_nft/src/updates/icrc7.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 14d2818..da76eeb 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -28,6 +28,13 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
         }
     })?;
 
+    if nft.token_owner.owner == ic_cdk::api::msg_caller()
+        && arg.from_subaccount.as_deref().map(Vec::as_slice).unwrap_or(&[0u8; 32])
+            != nft.token_owner.effective_subaccount()
+    {
+        return Err(icrc7::icrc7_transfer::TransferError::Unauthorized);
+    }
+
     if nft.token_owner.owner != ic_cdk::api::msg_caller()
         || arg.to.owner == Principal::anonymous()
         || nft.token_owner == arg.to
-- 
2.43.0


From 8dc3a1d27e134ded99a172eed9d52efa139fe5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 04/52] fix: ICRC-37 calls refuse the anonymous principal under
 any subaccount

---
 src/core_nft/src/updates/icrc37.rs | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index e21b1db..e832bd3 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -110,12 +110,7 @@ fn approve_token(
         return ApproveTokenResult::Err(ApproveTokenError::Unauthorized);
     }
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.approval_info.spender == anonymous_account {
+    if arg.approval_info.spender.owner == Principal::anonymous() {
         return ApproveTokenResult::Err(ApproveTokenError::InvalidSpender);
     }
 
@@ -263,12 +258,7 @@ fn approve_collection(
         subaccount: arg.approval_info.from_subaccount,
     };
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.approval_info.spender == anonymous_account {
+    if arg.approval_info.spender.owner == Principal::anonymous() {
         return ApproveCollectionResult::Err(ApproveCollectionError::InvalidSpender);
     }
 
@@ -699,12 +689,7 @@ fn transfer_from(
         return TransferFromResult::Err(TransferFromError::InvalidRecipient);
     }
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.to == anonymous_account {
+    if arg.to.owner == Principal::anonymous() {
         return TransferFromResult::Err(TransferFromError::InvalidRecipient);
     }
 
-- 
2.43.0


From 36f8c98c66bb02d85457caae66155fb1e8f4a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 05/52] fix: icrc37_is_approved reads the collection approvals
 of the token owner

---
 src/core_nft/src/queries/icrc37.rs | 32 ++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 2cd6bc7..20e2557 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -150,6 +150,14 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
 
             let current_time = ic_cdk::api::time();
 
+            let token_owner = match state.data.owner_of(&arg.token_id) {
+                Some(token_owner) => token_owner,
+                None => {
+                    response.push(false);
+                    continue;
+                }
+            };
+
             let has_token_approval = if let Some(token_approvals) = __TOKEN_APPROVALS
                 .with_borrow(|token_approvals| {
                     token_approvals.get(&WrappedNat::from(arg.token_id.clone()))
@@ -180,23 +188,27 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
 
             let has_collection_approval = __COLLECTION_APPROVALS
                 .with_borrow(|collection_approvals| {
-                    collection_approvals.get(&WrappedAccount::from(spender_account.clone()))
+                    collection_approvals.get(&WrappedAccount::from(token_owner.clone()))
                 })
-                .map(|approval_map| approval_map.0)
-                .unwrap_or(HashMap::new())
-                .iter()
-                .any(|(account, _approval)| {
-                    account.0.owner == spender_account.owner
-                        && account.0.subaccount == spender_account.subaccount
-                });
+                .and_then(|approval_map| {
+                    approval_map
+                        .0
+                        .get(&WrappedAccount::from(spender_account))
+                        .map(|approval| {
+                            approval
+                                .expires_at
+                                .map(|expires_at| expires_at > current_time)
+                                .unwrap_or(true)
+                        })
+                })
+                .unwrap_or(false);
 
             trace(&format!(
                 "has_collection_approval: {:?}",
                 has_collection_approval
             ));
 
-            let owner = state.data.owner_of(&arg.token_id);
-            let is_owner = owner == Some(from_account);
+            let is_owner = token_owner == from_account;
 
             trace(&format!("is_owner: {:?}", is_owner));
 
-- 
2.43.0


From 2b7829cf09a2b71936cf6a58589be0b4f968ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 06/52] fix: icrc37_revoke_collection_approvals honours
 from_subaccount

---
 src/core_nft/src/updates/icrc37.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index e832bd3..fbd5148 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -573,7 +573,7 @@ fn revoke_collection_approvals(
 
     let from_account = Account {
         owner: caller,
-        subaccount: None,
+        subaccount: arg.from_subaccount,
     };
 
     let collection_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
-- 
2.43.0


From f8bd136426666bf1ca8779892108d498e00bf54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 07/52] fix: icrc37_transfer_from keeps the collection
 approvals of a holder with tokens left

---
 src/core_nft/src/updates/icrc37.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index fbd5148..6505a3b 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -736,12 +736,12 @@ fn transfer_from(
                         approval_map.remove(&WrappedAccount::from(spender_account));
                         if approval_map.is_empty() {
                             collection_approvals.remove(&WrappedAccount::from(nft.token_owner));
+                        } else {
+                            collection_approvals.insert(
+                                WrappedAccount::from(nft.token_owner.clone()),
+                                WrappedApprovalValue(approval_map),
+                            );
                         }
-
-                        collection_approvals.insert(
-                            WrappedAccount::from(nft.token_owner.clone()),
-                            WrappedApprovalValue(approval_map),
-                        );
                         return false;
                     }
                     return true;
@@ -820,11 +820,7 @@ fn transfer_from(
         token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
     });
 
-    let has_nfts = __TOKEN_APPROVALS.with_borrow(|token_approvals| {
-        token_approvals
-            .get(&WrappedNat::from(arg.token_id.clone()))
-            .is_some()
-    });
+    let has_nfts = read_state(|state| state.data.tokens_balance_of(&arg.from) > 0u64);
 
     if !has_nfts {
         __COLLECTION_APPROVALS.with_borrow_mut(|collection_approvals| {
-- 
2.43.0


From 33062adcc9bfa0e9f469b74524700e51cb9a3791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 08/52] fix: revoking an approval that was never given reports
 ApprovalDoesNotExist

---
 src/core_nft/src/updates/icrc37.rs | 36 +++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 6505a3b..0636e8b 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -461,12 +461,21 @@ fn revoke_token_approvals(
 
     let mut approval_map = token_approvals.unwrap().0;
 
-    if let Some(spender) = &arg.spender {
-        approval_map.remove(&WrappedAccount::from(spender.clone()));
-    } else {
-        approval_map.clear();
+    let had_approval = match &arg.spender {
+        Some(spender) => approval_map
+            .remove(&WrappedAccount::from(spender.clone()))
+            .is_some(),
+        None => {
+            let had_approval = !approval_map.is_empty();
+            approval_map.clear();
+            had_approval
+        }
     };
 
+    if !had_approval {
+        return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::ApprovalDoesNotExist);
+    }
+
     let created_at_time = arg.created_at_time.map(|t| Nat::from(t));
 
     let transaction = ICRC37Transaction::new(
@@ -588,10 +597,21 @@ fn revoke_collection_approvals(
 
     let mut approval_map = collection_approvals.unwrap().0;
 
-    if let Some(spender) = &arg.spender {
-        approval_map.remove(&WrappedAccount::from(spender.clone()));
-    } else {
-        approval_map.clear();
+    let had_approval = match &arg.spender {
+        Some(spender) => approval_map
+            .remove(&WrappedAccount::from(spender.clone()))
+            .is_some(),
+        None => {
+            let had_approval = !approval_map.is_empty();
+            approval_map.clear();
+            had_approval
+        }
+    };
+
+    if !had_approval {
+        return RevokeCollectionApprovalResult::Err(
+            RevokeCollectionApprovalError::ApprovalDoesNotExist,
+        );
     }
 
     let created_at_time = arg.created_at_time.map(|t| Nat::from(t));
-- 
2.43.0


From 2c740d42c6f05b0f0ec6c8c85fd293b698adfd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 09/52] fix: a spender at the approval limit can be approved
 again

---
 src/core_nft/src/updates/icrc37.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 0636e8b..734fa80 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -139,16 +139,16 @@ fn approve_token(
         memo: memo_clone.clone().map(|m| m.to_vec()),
     };
 
+    // replacing the approval of a known spender adds none
     let would_exceed_max_approvals = __TOKEN_APPROVALS.with_borrow(|token_approvals| {
         token_approvals
             .get(&WrappedNat::from(arg.token_id.clone()))
-            .is_some()
-            && token_approvals
-                .get(&WrappedNat::from(arg.token_id.clone()))
-                .unwrap()
-                .0
-                .len()
-                >= max_approvals_per_token
+            .is_some_and(|approvals| {
+                !approvals
+                    .0
+                    .contains_key(&WrappedAccount::from(arg.approval_info.spender.clone()))
+                    && approvals.0.len() >= max_approvals_per_token
+            })
     });
 
     if would_exceed_max_approvals {
@@ -302,16 +302,16 @@ fn approve_collection(
     )
     .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
 
+    // replacing the approval of a known spender adds none
     let would_exceed_max_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
         collection_approvals
             .get(&WrappedAccount::from(from_account.clone()))
-            .is_some()
-            && collection_approvals
-                .get(&WrappedAccount::from(from_account.clone()))
-                .unwrap()
-                .0
-                .len()
-                >= max_approvals_per_collection
+            .is_some_and(|approvals| {
+                !approvals
+                    .0
+                    .contains_key(&WrappedAccount::from(arg.approval_info.spender.clone()))
+                    && approvals.0.len() >= max_approvals_per_collection
+            })
     });
 
     if would_exceed_max_approvals {
-- 
2.43.0


From 181bcbec204f2c1017c6adb2be8dafb9d0196d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 10/52] fix: icrc37_revoke_token_approvals answers an empty
 batch

---
 src/core_nft/src/updates/icrc37.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 734fa80..ace191b 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -372,6 +372,10 @@ fn icrc37_revoke_token_approvals(
 ) -> icrc37_revoke_token_approvals::Response {
     let caller = ic_cdk::api::msg_caller();
 
+    if args.is_empty() {
+        return Ok(vec![]);
+    }
+
     match guard_sliding_window(args[0].token_id.clone()) {
         Err(e) => {
             return icrc37_revoke_token_approvals::Response::Err(
-- 
2.43.0


From 048cef98d98308e27945a54173e68b8a873aaaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 11/52] fix: icrc37_get_token_approvals answers an empty list
 for a token that does not exist

---
 src/core_nft/src/queries/icrc37.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 20e2557..e1c96f4 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -19,6 +19,10 @@ fn icrc37_get_token_approvals(
 ) -> icrc37_get_token_approvals::Response {
     let mut response = Vec::new();
 
+    if read_state(|state| state.data.owner_of(&token_id)).is_none() {
+        return response;
+    }
+
     let take_usize = take
         .map(|n| usize::try_from(n.0).unwrap_or(10))
         .unwrap_or(10);
-- 
2.43.0


From 3b0717571bea3a47ec3883f65f579a9ef73674a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 12/52] fix: approvals created at the same time are listed in a
 stable order

---
 src/core_nft/src/queries/icrc37.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index e1c96f4..bc95619 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -51,6 +51,7 @@ fn icrc37_get_token_approvals(
             b.approval_info
                 .created_at_time
                 .cmp(&a.approval_info.created_at_time)
+                .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
         });
 
         let start_index = if let Some(prev_approval) = prev {
@@ -114,6 +115,7 @@ fn icrc37_get_collection_approvals(
         b.approval_info
             .created_at_time
             .cmp(&a.approval_info.created_at_time)
+            .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
     });
 
     let start_index = if let Some(prev_approval) = prev {
-- 
2.43.0


From 69716e0e20f46e957c20dec0be046e5b1a898432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 13/52] fix: listed approvals name the subaccount of the
 approver

---
 src/core_nft/src/queries/icrc37.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index bc95619..e78dfd1 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -34,11 +34,11 @@ fn icrc37_get_token_approvals(
             .0
             .iter()
             .map(
-                |(account, approval)| icrc37_get_token_approvals::TokenApproval {
+                |(_, approval)| icrc37_get_token_approvals::TokenApproval {
                     token_id: token_id.clone(),
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
@@ -99,10 +99,10 @@ fn icrc37_get_collection_approvals(
             .unwrap_or(HashMap::new())
             .iter()
             .map(
-                |(account, approval)| icrc37_get_collection_approvals::CollectionApproval {
+                |(_, approval)| icrc37_get_collection_approvals::CollectionApproval {
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
-- 
2.43.0


From fbc5382bfa9b91a2c85932c6cf4a465d15204b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 14/52] fix: metadata numbers beyond 64 bits can be stored

---
 src/core_nft/src/types/value_custom.rs | 46 ++++++++++++++++++++------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/types/value_custom.rs b/src/core_nft/src/types/value_custom.rs
index a95fe58..35dcb13 100644
--- a/src/core_nft/src/types/value_custom.rs
+++ b/src/core_nft/src/types/value_custom.rs
@@ -1,4 +1,4 @@
-use candid::CandidType;
+use candid::{CandidType, Int, Nat};
 use ic_stable_structures::{storable::Bound, Storable};
 use icrc_ledger_types::icrc::generic_value::ICRC3Value as Value;
 use minicbor::Encoder;
@@ -36,14 +36,28 @@ impl<C> minicbor::Encode<C> for CustomValue {
                 e.array(2)?.u8(1)?.str(t)?;
             }
             Value::Nat(n) => {
-                e.array(2)?
-                    .u8(2)?
-                    .u64(u64::try_from(n.0.clone()).unwrap())?;
+                e.array(2)?.u8(2)?;
+                match u64::try_from(n.0.clone()) {
+                    Ok(n) => e.u64(n)?,
+                    // does not fit: LEB128 bytes
+                    Err(_) => {
+                        let mut bytes = Vec::new();
+                        n.encode(&mut bytes).expect("failed to encode Nat");
+                        e.bytes(&bytes)?
+                    }
+                };
             }
             Value::Int(i) => {
-                e.array(2)?
-                    .u8(3)?
-                    .i64(i64::try_from(i.0.clone()).unwrap())?;
+                e.array(2)?.u8(3)?;
+                match i64::try_from(i.0.clone()) {
+                    Ok(i) => e.i64(i)?,
+                    // does not fit: signed LEB128 bytes
+                    Err(_) => {
+                        let mut bytes = Vec::new();
+                        i.encode(&mut bytes).expect("failed to encode Int");
+                        e.bytes(&bytes)?
+                    }
+                };
             }
             Value::Array(arr) => {
                 e.array(2)?.u8(4)?;
@@ -86,12 +100,22 @@ impl<'b, C> minicbor::Decode<'b, C> for CustomValue {
                 Value::Text(s)
             }
             2 => {
-                let n = d.u64()?;
-                Value::Nat(n.into())
+                if d.datatype()? == minicbor::data::Type::Bytes {
+                    Value::Nat(
+                        Nat::decode(&mut d.bytes()?).map_err(minicbor::decode::Error::message)?,
+                    )
+                } else {
+                    Value::Nat(d.u64()?.into())
+                }
             }
             3 => {
-                let i = d.i64()?;
-                Value::Int(i.into())
+                if d.datatype()? == minicbor::data::Type::Bytes {
+                    Value::Int(
+                        Int::decode(&mut d.bytes()?).map_err(minicbor::decode::Error::message)?,
+                    )
+                } else {
+                    Value::Int(d.i64()?.into())
+                }
             }
             4 => {
                 let array_len = d.array()?.unwrap();
-- 
2.43.0


From 6edf414b254075feabd93c50e29cc4c049ec8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 15/52] fix: a mint that cannot be logged leaves no block and
 no metadata behind

---
 src/core_nft/src/updates/management.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index b80dff5..e8d4316 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -170,9 +170,7 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
     for (i, mint_request) in req.mint_requests.iter().enumerate() {
         let token_id = current_token_id.clone() + Nat::from(i as u64);
 
-        let mut new_token =
-            nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
-        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+        let new_token = nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
 
         let transaction = ICRC7Transaction::new(
             "7mint".to_string(),
@@ -192,10 +190,14 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
         transactions.push(transaction);
     }
 
-    for transaction in transactions {
+    for (i, transaction) in transactions.into_iter().enumerate() {
         match icrc3_add_transaction(transaction) {
             Ok(_) => {}
             Err(e) => {
+                if i > 0 {
+                    // roll back the mint blocks that were already logged
+                    ic_cdk::trap(&format!("Failed to log transaction: {}", e));
+                }
                 return Err(management::mint::MintError::StorageCanisterError(
                     e.to_string(),
                 ));
@@ -203,6 +205,10 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
         }
     }
 
+    for ((_, new_token, _), mint_request) in new_tokens.iter_mut().zip(&req.mint_requests) {
+        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+    }
+
     mutate_state(|state| {
         let new_last_token_id =
             current_token_id.clone() + Nat::from(req.mint_requests.len() as u64);
-- 
2.43.0


From 1c50103092049f05916ce85b6d751948e31b5aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 16/52] fix: update_nft_metadata leaves the metadata alone when
 the update cannot be logged

---
 src/core_nft/src/updates/management.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index e8d4316..8bea133 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -253,11 +253,6 @@ pub fn update_nft_metadata(
             let previous_metadata =
                 __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
 
-            __METADATA.with_borrow_mut(|m| token.replace_metadata(m, req.metadata));
-
-            let new_metadata =
-                __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
-
             let mut metadata_map = BTreeMap::new();
 
             metadata_map.insert(
@@ -273,13 +268,7 @@ pub fn update_nft_metadata(
 
             metadata_map.insert(
                 "icrc7:new_metadata".to_string(),
-                Icrc3Value::Map(
-                    new_metadata
-                        .unwrap_or_default()
-                        .into_iter()
-                        .map(|(k, v)| (k, v.0))
-                        .collect(),
-                ),
+                Icrc3Value::Map(req.metadata.iter().cloned().collect()),
             );
 
             let meta = Icrc3Value::Map(metadata_map);
@@ -310,6 +299,8 @@ pub fn update_nft_metadata(
                 }
             };
 
+            __METADATA.with_borrow_mut(|m| token.replace_metadata(m, req.metadata));
+
             mutate_state(|state| {
                 state
                     .data
-- 
2.43.0


From a7ec1a11b0d1d0b841f86b664f813b5b31bbca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 17/52] fix: a duplicate transfer is reported as Duplicate

---
 src/core_nft/src/updates/icrc37.rs | 12 +++---------
 src/core_nft/src/updates/icrc7.rs  |  4 +++-
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index ace191b..aea7da3 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -800,15 +800,9 @@ fn transfer_from(
     let index = match icrc3_add_transaction(transaction) {
         Ok(index) => index,
         Err(e) => match e {
-            Icrc3Error::Icrc3Error(e) => {
-                if e.to_lowercase().contains("duplicate") {
-                    return TransferFromResult::Err(TransferFromError::Duplicate {
-                        duplicate_of: Nat::from(2u64), // value hardcoded for now. Need to update icrc3 to get the correct value
-                    });
-                }
-                return TransferFromResult::Err(TransferFromError::GenericError {
-                    error_code: Nat::from(1u64),
-                    message: format!("Failed to insert transaction: {}", e),
+            Icrc3Error::DuplicateTransaction { duplicate_of } => {
+                return TransferFromResult::Err(TransferFromError::Duplicate {
+                    duplicate_of: Nat::from(duplicate_of),
                 });
             }
             _ => {
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index da76eeb..dde612a 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -114,7 +114,9 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
         }
         Err(e) => {
             if let bity_ic_icrc3::types::Icrc3Error::DuplicateTransaction { duplicate_of } = e {
-                return Ok(Nat::from(duplicate_of));
+                return Err(icrc7::icrc7_transfer::TransferError::Duplicate {
+                    duplicate_of: Nat::from(duplicate_of),
+                });
             }
             Err(icrc7::icrc7_transfer::TransferError::GenericError {
                 error_code: Nat::from(2u64),
-- 
2.43.0


From 38fcbffe425fa590a951c0cbf4b209e1f0dd4f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 18/52] fix: atomic_batch_transfers undoes a batch that fails
 in part

---
 src/core_nft/src/updates/icrc7.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index dde612a..6da0383 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -164,9 +164,19 @@ pub async fn icrc7_transfer(args: icrc7::icrc7_transfer::Args) -> icrc7::icrc7_t
     }
 
     // Process only up to max_batch_size transfers
-    args.iter()
+    let results: icrc7::icrc7_transfer::Response = args
+        .iter()
         .take(max_batch_size)
         .map(transfer_nft)
         .map(Some)
-        .collect()
+        .collect();
+
+    // an atomic batch transfers all of its tokens or none: the trap undoes the transfers made
+    if atomic_batch_transfers && results.iter().flatten().any(|result| result.is_ok()) {
+        if let Some(error) = results.iter().flatten().find_map(|r| r.as_ref().err()) {
+            ic_cdk::trap(&format!("Atomic batch transfer failed: {:?}", error));
+        }
+    }
+
+    results
 }
-- 
2.43.0


From 579da3b748486b93ebcf31b44942fdacf634ffff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 19/52] fix: an upgrade during a management call does not lock
 management for good

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 746684b..54585a1 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -48,6 +48,8 @@ fn post_upgrade(args: Args) {
 
             state.env.set_version(upgrade_args.version);
             state.env.set_commit_hash(upgrade_args.commit_hash);
+            // the calls that held these guards ended with the upgrade
+            state.principal_guards.clear();
 
             bity_ic_canister_logger::init_with_logs(state.env.is_test_mode(), logs, traces);
             init_canister(state.clone());
-- 
2.43.0


From ca1b944c2320e556e49b430013fd70cc0f1e294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 20/52] fix: the certified data is set again after an upgrade

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 54585a1..d321b25 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -1,7 +1,7 @@
 use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
 use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
-use crate::types::http::add_redirection;
+use crate::types::http::{add_redirection, certify_all_assets};
 use crate::Args;
 
 use bity_ic_canister_logger::LogEntry;
@@ -56,6 +56,8 @@ fn post_upgrade(args: Args) {
             replace_icrc3(icrc3);
             start_default_archive_job();
 
+            certify_all_assets();
+
             let media_redirections = read_state(|state| state.data.media_redirections.clone());
             for (path, redirection_url) in media_redirections {
                 add_redirection(path, redirection_url);
-- 
2.43.0


From 983f8ade226b7bbf8408856abcb89a3278e4b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 21/52] fix: /logs and /traces carry the certificate of their
 own path

---
 src/core_nft/src/queries/http_request.rs | 18 +++++++++---------
 src/core_nft/src/types/http.rs           |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core_nft/src/queries/http_request.rs b/src/core_nft/src/queries/http_request.rs
index 1749e87..8b6a468 100644
--- a/src/core_nft/src/queries/http_request.rs
+++ b/src/core_nft/src/queries/http_request.rs
@@ -17,14 +17,14 @@ fn http_request(req: HttpRequest) -> HttpResponse {
     let path = req.get_path().expect("Failed to parse request path");
 
     match path.as_str() {
-        "/logs" => serve_logs(bity_ic_canister_logger::export_logs()),
-        "/traces" => serve_logs(bity_ic_canister_logger::export_traces()),
+        "/logs" => serve_logs("/logs", bity_ic_canister_logger::export_logs()),
+        "/traces" => serve_logs("/traces", bity_ic_canister_logger::export_traces()),
         "/metrics" => serve_metrics(),
         _ => serve_asset(&req),
     }
 }
 
-fn serve_logs(logs: Vec<LogEntry>) -> HttpResponse<'static> {
+fn serve_logs(path: &str, logs: Vec<LogEntry>) -> HttpResponse<'static> {
     ASSET_ROUTER.with_borrow(|_| {
         let body = serde_json::to_vec(&logs).expect("Failed to serialize metrics");
         let headers = get_asset_headers(vec![
@@ -47,15 +47,15 @@ fn serve_logs(logs: Vec<LogEntry>) -> HttpResponse<'static> {
         HTTP_TREE.with(|tree| {
             let tree = tree.borrow();
 
-            let metrics_tree_path = HttpCertificationPath::exact("/metrics");
-            let metrics_certification = HttpCertification::skip();
-            let metrics_tree_entry =
-                HttpCertificationTreeEntry::new(&metrics_tree_path, metrics_certification);
+            let logs_tree_path = HttpCertificationPath::exact(path);
+            let logs_certification = HttpCertification::skip();
+            let logs_tree_entry =
+                HttpCertificationTreeEntry::new(&logs_tree_path, logs_certification);
             add_v2_certificate_header(
                 &data_certificate().expect("No data certificate available"),
                 &mut response,
-                &tree.witness(&metrics_tree_entry, "/metrics").unwrap(),
-                &metrics_tree_path.to_expr_path(),
+                &tree.witness(&logs_tree_entry, path).unwrap(),
+                &logs_tree_path.to_expr_path(),
             );
 
             response
diff --git a/src/core_nft/src/types/http.rs b/src/core_nft/src/types/http.rs
index bdff63a..17c93dd 100644
--- a/src/core_nft/src/types/http.rs
+++ b/src/core_nft/src/types/http.rs
@@ -94,7 +94,7 @@ pub fn certify_all_assets() {
         let logs_tree_entry = HttpCertificationTreeEntry::new(logs_tree_path, logs_certification);
         tree.insert(&logs_tree_entry);
 
-        let trace_tree_path = HttpCertificationPath::exact("/trace");
+        let trace_tree_path = HttpCertificationPath::exact("/traces");
         let trace_certification = HttpCertification::skip();
         let trace_tree_entry =
             HttpCertificationTreeEntry::new(trace_tree_path, trace_certification);
-- 
2.43.0


From 0504b42914776d4daff539868759f0c96a8cae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 22/52] fix: granting a permission twice lists it once

---
 src/core_nft/src/types/permissions.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core_nft/src/types/permissions.rs b/src/core_nft/src/types/permissions.rs
index db96c71..746154a 100644
--- a/src/core_nft/src/types/permissions.rs
+++ b/src/core_nft/src/types/permissions.rs
@@ -40,10 +40,13 @@ impl PermissionManager {
     }
 
     pub fn grant_permission(&mut self, principal: Principal, permission: Permission) {
-        self.user_permissions
+        let permissions = self
+            .user_permissions
             .entry(principal)
-            .or_insert_with(Vec::new)
-            .push(permission);
+            .or_insert_with(Vec::new);
+        if !permissions.contains(&permission) {
+            permissions.push(permission);
+        }
     }
 
     pub fn revoke_permission(&mut self, principal: &Principal, permission: &Permission) {
-- 
2.43.0


From 4e3da9b6494801997582df94fedb7e847018375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 23/52] fix: init_upload does not forget a storage canister
 created before an error

---
 src/core_nft/src/updates/management.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 8bea133..6e99839 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -394,6 +394,10 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
         Ok((_, canister)) => canister,
         Err(e) => {
             trace(&format!("Error inserting data: {:?}", e));
+            // keep track of the canisters created before the error
+            mutate_state(|state| {
+                state.data.sub_canister_manager = sub_canister_manager;
+            });
             return Err(init_upload::InitUploadError::StorageCanisterError(e));
         }
     };
-- 
2.43.0


From 94ffcec1cdd5329a8db008bc0b19143bf2e4593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 24/52] fix: tx_window is in nanoseconds for the transaction
 log too

---
 src/core_nft/src/lifecycle/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index a384e9f..b960256 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -105,7 +105,7 @@ fn init(args: Args) {
             }
 
             let _tx_window = match init_args.tx_window {
-                Some(tx_window) => Duration::from_millis(u64::try_from(tx_window.0).unwrap()),
+                Some(tx_window) => Duration::from_nanos(u64::try_from(tx_window.0).unwrap()),
                 None => Duration::from_secs(0),
             };
 
-- 
2.43.0


From a0a4682d54fd9f5b717fe88c89acc704197b5a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 25/52] fix: permitted_drift and max_canister_storage_threshold
 are not swapped at init

---
 src/core_nft/src/lifecycle/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index b960256..394f9e0 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -84,8 +84,8 @@ fn init(args: Args) {
                 init_args.max_memo_size,
                 init_args.atomic_batch_transfers,
                 init_args.tx_window.clone(),
-                init_args.permitted_drift,
                 init_args.max_canister_storage_threshold,
+                init_args.permitted_drift,
                 init_args.approval_init.clone(),
             );
 
-- 
2.43.0


From 61265dff4930e2761417c0141a37adf93077f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 26/52] fix: the consent message of an empty
 icrc37_approve_collection does not trap

---
 src/core_nft/src/queries/icrc21.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/queries/icrc21.rs b/src/core_nft/src/queries/icrc21.rs
index ff62ad3..4fadca6 100644
--- a/src/core_nft/src/queries/icrc21.rs
+++ b/src/core_nft/src/queries/icrc21.rs
@@ -144,7 +144,10 @@ fn handle_approve_collection_consent(args: icrc21::Args) -> icrc21::Response {
                 ));
             }
 
-            let generic_message = format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", approve_args.first().unwrap().approval_info.spender.owner);
+            let generic_message = match approve_args.first() {
+                Some(arg) => format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", arg.approval_info.spender.owner),
+                None => "You are about to approve nobody to transfer your nft available in the collection. Method: icrc37_approve_collection".to_string(),
+            };
 
             create_consent_info(generic_message, args.user_preferences.metadata)
         }
-- 
2.43.0


From 165a73f43c78fe59d2ef315dcb7e86b361840243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 27/52] fix: the upload garbage collector cancels the stale
 uploads only

---
 src/core_nft/src/jobs/upload_garbage_collector.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core_nft/src/jobs/upload_garbage_collector.rs b/src/core_nft/src/jobs/upload_garbage_collector.rs
index 64aac02..60d244a 100644
--- a/src/core_nft/src/jobs/upload_garbage_collector.rs
+++ b/src/core_nft/src/jobs/upload_garbage_collector.rs
@@ -1,11 +1,13 @@
 use std::time::Duration;
 
 use bity_ic_canister_time::{run_interval, DAY_IN_MS};
-use bity_ic_storage_canister_api::cancel_upload;
+use bity_ic_storage_canister_api::{cancel_upload, types::storage::UploadState};
 use bity_ic_storage_canister_c2c::cancel_upload;
 use tracing::{debug, info};
 
-use crate::state::read_state;
+use crate::state::{mutate_state, read_state};
+
+const DAY_IN_NANOS: u64 = DAY_IN_MS * 1_000_000;
 
 pub fn start_job() {
     run_interval(
@@ -22,7 +24,9 @@ async fn upload_garbage_collector() {
     let all_files = read_state(|state| state.internal_filestorage.get_all_files().clone());
 
     for (file_path, file) in all_files {
-        if file.init_timestamp + DAY_IN_MS > ic_cdk::api::time() {
+        if file.state != UploadState::Finalized
+            && file.init_timestamp + DAY_IN_NANOS <= ic_cdk::api::time()
+        {
             let result = cancel_upload(
                 file.canister,
                 cancel_upload::Args {
@@ -33,6 +37,7 @@ async fn upload_garbage_collector() {
 
             match result {
                 Ok(_) => {
+                    mutate_state(|state| state.internal_filestorage.remove(&file_path));
                     debug!("Successfully canceled upload for file {}", file_path);
                 }
                 Err(err) => {
-- 
2.43.0


From af63a1d342271faf7dc087cf8fcc5f81f1e32e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 28/52] fix: the index finds icrc37_transfer_from blocks by
 token id

---
 src/index_icrc7/src/blocks.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index aee2cd0..838b99c 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -354,7 +354,20 @@ impl TransactionDataExtractor for TransferFromBlock {
     }
 
     fn extract_token_id(&self, data: &ICRC3Value) -> Result<Option<WrappedNat>, String> {
-        return Ok(None);
+        match data {
+            ICRC3Value::Map(map) => {
+                if let Some(ICRC3Value::Map(tx)) = map.get("tx") {
+                    if let Some(ICRC3Value::Nat(token_id)) = tx.get("tid") {
+                        Ok(Some(WrappedNat(token_id.clone())))
+                    } else {
+                        Err("Missing or invalid token ID field".to_string())
+                    }
+                } else {
+                    Err("Invalid transaction data".to_string())
+                }
+            }
+            _ => Err("TransferFrom transaction data must be a map".to_string()),
+        }
     }
 }
 
-- 
2.43.0


From 8fb15dd1b91c7fc224459fa72fc548474c99b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 29/52] fix: the index finds collection approvals by their
 spender

---
 src/index_icrc7/src/blocks.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index 838b99c..99f8a65 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -418,6 +418,11 @@ impl TransactionDataExtractor for CollectionApproveBlock {
                             accounts.push(account);
                         }
                     }
+                    if let Some(ICRC3Value::Text(spender)) = tx.get("spender") {
+                        if let Ok(account) = WrappedAccount::from_str(spender) {
+                            accounts.push(account);
+                        }
+                    }
                 }
                 Ok(accounts)
             }
-- 
2.43.0


From 97dca59967dd8262c4233e015254e8f9d05d1607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 30/52] fix: the index lists a block once per key

---
 src/index_icrc7/src/index.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/index_icrc7/src/index.rs b/src/index_icrc7/src/index.rs
index 0c70b1d..e39aafa 100644
--- a/src/index_icrc7/src/index.rs
+++ b/src/index_icrc7/src/index.rs
@@ -107,7 +107,9 @@ pub fn add_block_to_index(block: &BlockWithId) -> Result<(), String> {
                 .map(|v| v.0.clone())
                 .unwrap_or_default();
             let mut d: VecDeque<_> = account_values.into();
-            d.push_front(block_id);
+            if !d.contains(&block_id) {
+                d.push_front(block_id);
+            }
             let account_values: Vec<_> = d.into();
             index_mut.insert(account_key, IndexValue(account_values.clone()));
         }
@@ -118,7 +120,9 @@ pub fn add_block_to_index(block: &BlockWithId) -> Result<(), String> {
             .map(|v| v.0.clone())
             .unwrap_or_default();
         let mut d: VecDeque<_> = block_type_values.into();
-        d.push_front(block_id);
+        if !d.contains(&block_id) {
+            d.push_front(block_id);
+        }
         let block_type_values: Vec<_> = d.into();
         index_mut.insert(block_type_key, IndexValue(block_type_values));
 
@@ -129,7 +133,9 @@ pub fn add_block_to_index(block: &BlockWithId) -> Result<(), String> {
                 .map(|v| v.0.clone())
                 .unwrap_or_default();
             let mut d: VecDeque<_> = token_id_values.into();
-            d.push_front(block_id);
+            if !d.contains(&block_id) {
+                d.push_front(block_id);
+            }
             let token_id_values: Vec<_> = d.into();
             index_mut.insert(token_id_key, IndexValue(token_id_values));
         }
-- 
2.43.0


From 3be30e2038d4542572faf77afe1e0c9247396d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 31/52] fix: overlapping index updates do not move the position
 back

---
 src/index_icrc7/src/jobs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/jobs.rs b/src/index_icrc7/src/jobs.rs
index 40df08e..51496c9 100644
--- a/src/index_icrc7/src/jobs.rs
+++ b/src/index_icrc7/src/jobs.rs
@@ -60,6 +60,7 @@ async fn update_index() {
     }
 
     mutate_state(|state| {
-        state.data.last_block_id = last_block_id;
+        // a slower run that started earlier must not move the position back
+        state.data.last_block_id = state.data.last_block_id.max(last_block_id);
     });
 }
-- 
2.43.0


From ae13ed940a3ecf5a40ab551260a4fa8cbc212f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 32/52] fix: filtered index pages accept any start and length

---
 src/index_icrc7/src/update/get_blocks.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/index_icrc7/src/update/get_blocks.rs b/src/index_icrc7/src/update/get_blocks.rs
index 1bc0ff6..a2f326e 100644
--- a/src/index_icrc7/src/update/get_blocks.rs
+++ b/src/index_icrc7/src/update/get_blocks.rs
@@ -67,14 +67,14 @@ async fn get_blocks_with_filters(
 
     combined_block_ids.sort();
 
-    let start_idx = start as usize;
-    let end_idx = (start + length) as usize;
+    let count = combined_block_ids.len() as u64;
 
-    if start_idx >= combined_block_ids.len() {
+    if start >= count {
         return Vec::new();
     }
 
-    let end_idx = end_idx.min(combined_block_ids.len());
+    let start_idx = start as usize;
+    let end_idx = start.saturating_add(length).min(count) as usize;
     let paginated_block_ids = &combined_block_ids[start_idx..end_idx];
 
     let block_range: Vec<u64> = paginated_block_ids.to_vec();
-- 
2.43.0


From 8d2082e895464812539d3d20b50d19ece1513519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 33/52] fix: the index caches blocks with numbers beyond 64
 bits

---
 src/index_icrc7/src/wrapped_values.rs | 46 ++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/index_icrc7/src/wrapped_values.rs b/src/index_icrc7/src/wrapped_values.rs
index cbd2a30..5cf0dd3 100644
--- a/src/index_icrc7/src/wrapped_values.rs
+++ b/src/index_icrc7/src/wrapped_values.rs
@@ -1,4 +1,4 @@
-use candid::{CandidType, Nat, Principal};
+use candid::{CandidType, Int, Nat, Principal};
 use ic_stable_structures::{storable::Bound, Storable};
 use icrc_ledger_types::icrc::generic_value::ICRC3Value as Value;
 use icrc_ledger_types::icrc1::account::Account;
@@ -181,14 +181,28 @@ impl<C> minicbor::Encode<C> for CustomValue {
                 e.array(2)?.u8(1)?.str(t)?;
             }
             Value::Nat(n) => {
-                e.array(2)?
-                    .u8(2)?
-                    .u64(u64::try_from(n.0.clone()).unwrap())?;
+                e.array(2)?.u8(2)?;
+                match u64::try_from(n.0.clone()) {
+                    Ok(n) => e.u64(n)?,
+                    // does not fit: LEB128 bytes
+                    Err(_) => {
+                        let mut bytes = Vec::new();
+                        n.encode(&mut bytes).expect("failed to encode Nat");
+                        e.bytes(&bytes)?
+                    }
+                };
             }
             Value::Int(i) => {
-                e.array(2)?
-                    .u8(3)?
-                    .i64(i64::try_from(i.0.clone()).unwrap())?;
+                e.array(2)?.u8(3)?;
+                match i64::try_from(i.0.clone()) {
+                    Ok(i) => e.i64(i)?,
+                    // does not fit: signed LEB128 bytes
+                    Err(_) => {
+                        let mut bytes = Vec::new();
+                        i.encode(&mut bytes).expect("failed to encode Int");
+                        e.bytes(&bytes)?
+                    }
+                };
             }
             Value::Array(arr) => {
                 e.array(2)?.u8(4)?;
@@ -231,12 +245,22 @@ impl<'b, C> minicbor::Decode<'b, C> for CustomValue {
                 Value::Text(s)
             }
             2 => {
-                let n = d.u64()?;
-                Value::Nat(n.into())
+                if d.datatype()? == minicbor::data::Type::Bytes {
+                    Value::Nat(
+                        Nat::decode(&mut d.bytes()?).map_err(minicbor::decode::Error::message)?,
+                    )
+                } else {
+                    Value::Nat(d.u64()?.into())
+                }
             }
             3 => {
-                let i = d.i64()?;
-                Value::Int(i.into())
+                if d.datatype()? == minicbor::data::Type::Bytes {
+                    Value::Int(
+                        Int::decode(&mut d.bytes()?).map_err(minicbor::decode::Error::message)?,
+                    )
+                } else {
+                    Value::Int(d.i64()?.into())
+                }
             }
             4 => {
                 let array_len = d.array()?.unwrap();
-- 
2.43.0


From 181a861a70ce648ae7d5f12b07eb4c3db8331234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 34/52] fix: an integer in updated token metadata does not
 block upgrades

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 24 ++++++++++++++++++----
 src/core_nft/src/lifecycle/pre_upgrade.rs  | 13 ++++++++++--
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index d321b25..9a3e265 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -10,8 +10,9 @@ use bity_ic_icrc3::icrc3::ICRC3;
 use bity_ic_stable_memory::get_reader;
 use bity_ic_types::BuildVersion;
 
-use candid::CandidType;
+use candid::{CandidType, Decode};
 use ic_cdk_macros::post_upgrade;
+use icrc_ledger_types::icrc::generic_value::ICRC3Value;
 use serde::{Deserialize, Serialize};
 use tracing::info;
 
@@ -21,6 +22,17 @@ pub struct UpgradeArgs {
     pub commit_hash: String,
 }
 
+#[derive(Deserialize)]
+struct StableState {
+    state: RuntimeState,
+    logs: Vec<LogEntry>,
+    traces: Vec<LogEntry>,
+    icrc3: ICRC3,
+    // absent when upgrading from a version that kept these in icrc3
+    #[serde(default)]
+    recent_transactions: Vec<Vec<u8>>,
+}
+
 #[post_upgrade]
 #[trace]
 fn post_upgrade(args: Args) {
@@ -34,9 +46,13 @@ fn post_upgrade(args: Args) {
             let reader = get_reader(&memory);
 
             // uncomment these lines if you want to do a normal upgrade
-            let (mut state, logs, traces, icrc3): (RuntimeState, Vec<LogEntry>, Vec<LogEntry>, ICRC3) = bity_ic_serializer
-                ::deserialize(reader)
-                .unwrap();
+            let StableState { mut state, logs, traces, mut icrc3, recent_transactions } =
+                bity_ic_serializer::deserialize(reader).unwrap();
+            icrc3.ledger.extend(
+                recent_transactions
+                    .iter()
+                    .map(|transaction| Decode!(transaction, ICRC3Value).unwrap())
+            );
 
             // uncomment these lines if you want to do an upgrade with migration
             // let (runtime_state_v0, logs, traces): (
diff --git a/src/core_nft/src/lifecycle/pre_upgrade.rs b/src/core_nft/src/lifecycle/pre_upgrade.rs
index 6947fad..3d497b6 100644
--- a/src/core_nft/src/lifecycle/pre_upgrade.rs
+++ b/src/core_nft/src/lifecycle/pre_upgrade.rs
@@ -4,6 +4,7 @@ use crate::{
 };
 use bity_ic_canister_tracing_macros::trace;
 use bity_ic_stable_memory::get_writer;
+use candid::Encode;
 use ic_cdk_macros::pre_upgrade;
 use tracing::info;
 
@@ -13,12 +14,20 @@ fn pre_upgrade() {
     info!("Pre upgrade.");
 
     let runtime_state = take_state();
-    let icrc3 = take_icrc3();
+    let mut icrc3 = take_icrc3();
+
+    // candid::Int can be serialized but not deserialized by serde: recent transactions, which hold
+    // metadata values, are kept as candid
+    let recent_transactions: Vec<Vec<u8>> = icrc3
+        .iter_mut()
+        .flat_map(|icrc3| icrc3.ledger.drain(..))
+        .map(|transaction| Encode!(&transaction).unwrap())
+        .collect();
 
     let logs = bity_ic_canister_logger::export_logs();
     let traces = bity_ic_canister_logger::export_traces();
 
-    let stable_state = (runtime_state, logs, traces, icrc3);
+    let stable_state = (runtime_state, logs, traces, icrc3, recent_transactions);
 
     let mut memory = get_upgrades_memory();
     let writer = get_writer(&mut memory);
-- 
2.43.0


From 4d923ce5f3f46a9ebecc7dfc705c79927132f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 35/52] fix: an upload that could not be finalized can be
 cancelled

---
 src/core_nft/src/updates/management.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 6e99839..c178f6b 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -636,6 +636,8 @@ pub async fn cancel_upload(data: cancel_upload::Args) -> cancel_upload::Response
 
     match canister.cancel_upload(data.clone()).await {
         Ok(_) => {}
+        // an upload that could not be finalized is already gone there
+        Err(cancel_upload::CancelUploadError::UploadNotInitialized) => {}
         Err(e) => {
             trace(&format!("Error storing chunk: {:?}", e));
             return Err(e);
-- 
2.43.0


From 701c84cf79fef950c74722997290e2e1d1352d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:53 +0000
Subject: [PATCH 36/52] fix: the upload garbage collector decides on each
 upload as it is at that time

While it waits for a storage canister, an upload it has yet to look at can be
finalized, or cancelled and started again; its record must stay then.
---
 .../src/jobs/upload_garbage_collector.rs      | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/core_nft/src/jobs/upload_garbage_collector.rs b/src/core_nft/src/jobs/upload_garbage_collector.rs
index 60d244a..52f51f7 100644
--- a/src/core_nft/src/jobs/upload_garbage_collector.rs
+++ b/src/core_nft/src/jobs/upload_garbage_collector.rs
@@ -24,9 +24,16 @@ async fn upload_garbage_collector() {
     let all_files = read_state(|state| state.internal_filestorage.get_all_files().clone());
 
     for (file_path, file) in all_files {
-        if file.state != UploadState::Finalized
-            && file.init_timestamp + DAY_IN_NANOS <= ic_cdk::api::time()
-        {
+        // other calls run while a cancellation is awaited: decide on the upload as it is now
+        let is_unfinished = || {
+            read_state(|state| {
+                state.internal_filestorage.get(&file_path).is_some_and(|f| {
+                    f.state != UploadState::Finalized && f.init_timestamp == file.init_timestamp
+                })
+            })
+        };
+
+        if is_unfinished() && file.init_timestamp + DAY_IN_NANOS <= ic_cdk::api::time() {
             let result = cancel_upload(
                 file.canister,
                 cancel_upload::Args {
@@ -36,8 +43,10 @@ async fn upload_garbage_collector() {
             .await;
 
             match result {
-                Ok(_) => {
-                    mutate_state(|state| state.internal_filestorage.remove(&file_path));
+                Ok(Ok(_)) | Ok(Err(cancel_upload::CancelUploadError::UploadNotInitialized)) => {
+                    if is_unfinished() {
+                        mutate_state(|state| state.internal_filestorage.remove(&file_path));
+                    }
                     debug!("Successfully canceled upload for file {}", file_path);
                 }
                 Err(err) => {
-- 
2.43.0


From bbf3e8b9be086977b1dba4d72bb102fb48d64091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 37/52] fix: a file path that differs from another one by its
 leading slash is taken

Both were finalized under one URL, so the second replaced the redirection of
the first.
---
 src/core_nft/src/state.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/state.rs b/src/core_nft/src/state.rs
index 10524b6..a02bb22 100644
--- a/src/core_nft/src/state.rs
+++ b/src/core_nft/src/state.rs
@@ -309,8 +309,13 @@ impl InternalFilestorage {
         self.map.remove(path)
     }
 
+    // "a" and "/a" are served under the same URL
     pub fn contains_path(&self, path: &str) -> bool {
-        self.map.values().any(|data| data.path == path)
+        let url_path = |path: &str| path.strip_prefix('/').unwrap_or(path).to_string();
+
+        self.map
+            .values()
+            .any(|data| url_path(&data.path) == url_path(path))
     }
 
     pub fn get_all_files(&self) -> Vec<(String, InternalFilestorageData)> {
-- 
2.43.0


From 8557168dc1a6c0cc80b294a4403cf4458aa4dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:25 +0000
Subject: [PATCH 38/52] fix: an upload whose path no URL leads to is refused

---
 src/core_nft/src/types/http.rs         | 18 +++++++++++++++++-
 src/core_nft/src/updates/management.rs |  8 +++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/types/http.rs b/src/core_nft/src/types/http.rs
index 17c93dd..fa31dc6 100644
--- a/src/core_nft/src/types/http.rs
+++ b/src/core_nft/src/types/http.rs
@@ -2,7 +2,7 @@ use ic_asset_certification::{AssetConfig, AssetRedirectKind, AssetRouter};
 use ic_cdk::api::certified_data_set;
 use ic_http_certification::{
     HeaderField, HttpCertification, HttpCertificationPath, HttpCertificationTree,
-    HttpCertificationTreeEntry,
+    HttpCertificationTreeEntry, HttpRequest,
 };
 use std::{cell::RefCell, rc::Rc};
 
@@ -26,6 +26,22 @@ thread_local! {
 // const IMMUTABLE_ASSET_CACHE_CONTROL: &str = "public, max-age=31536000, immutable";
 pub const NO_CACHE_ASSET_CACHE_CONTROL: &str = "public, no-cache, no-store";
 
+// Whether requests for a file can be answered: its path has to come out of parsing
+// a URL unchanged and not be one of the canister's own pages.
+pub fn is_servable_path(file_path: &str) -> bool {
+    let path = if file_path.starts_with('/') {
+        file_path.to_string()
+    } else {
+        format!("/{}", file_path)
+    };
+
+    !["/metrics", "/logs", "/traces"].contains(&path.as_str())
+        && HttpRequest::get(path.clone())
+            .build()
+            .get_path()
+            .is_ok_and(|url_path| url_path == path)
+}
+
 pub fn add_redirection(from_url: String, to_url: String) -> Option<()> {
     trace(&format!(
         "add_redirection: from_url: {}, to_url: {}",
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index c178f6b..7678c45 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -4,7 +4,7 @@ use crate::guards::{
     caller_has_update_metadata_permission, caller_has_update_uploads_permission, GuardManagement,
 };
 use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFilestorageData};
-use crate::types::http::add_redirection;
+use crate::types::http::{add_redirection, is_servable_path};
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
 use crate::types::{icrc7, management, nft, WrappedNat, __TOKEN_APPROVALS};
@@ -388,6 +388,12 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
         return Err(init_upload::InitUploadError::FileAlreadyExists);
     }
 
+    if !is_servable_path(&data.file_path) {
+        return Err(init_upload::InitUploadError::StorageCanisterError(
+            "No URL leads to this file path".to_string(),
+        ));
+    }
+
     let mut sub_canister_manager = read_state(|state| state.data.sub_canister_manager.clone());
 
     let canister = match sub_canister_manager.init_upload(data.clone()).await {
-- 
2.43.0


From 0ce31b3f585625f68d45fd42dfc47dbe92798181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:26 +0000
Subject: [PATCH 39/52] fix: the daily clean-up of the index cache does not
 trap

---
 src/index_icrc7/src/cache.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/index_icrc7/src/cache.rs b/src/index_icrc7/src/cache.rs
index cf8e02f..08570ea 100644
--- a/src/index_icrc7/src/cache.rs
+++ b/src/index_icrc7/src/cache.rs
@@ -68,16 +68,16 @@ pub fn try_get_value_with_timestamp(key: u64) -> Option<(u64, CustomValue)> {
 
 pub fn remove_all_values_older_than(timestamp: &u64) -> bool {
     __CACHE.with(|cache| {
-        cache
+        let keys: Vec<u64> = cache
             .borrow()
             .iter()
             .filter(|(_, entry)| entry.timestamp < *timestamp)
             .map(|(key, _)| key)
-            .collect::<Vec<_>>()
-            .into_iter()
-            .for_each(|key| {
-                cache.borrow_mut().remove(&key);
-            });
+            .collect();
+
+        for key in keys {
+            cache.borrow_mut().remove(&key);
+        }
 
         true
     })
-- 
2.43.0


From 59b3859843849b0fe9dea01f26122748217f4727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 40/52] fix: the index answers filters by token ids beyond 64
 bits

---
 src/index_icrc7/src/wrapped_values.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/wrapped_values.rs b/src/index_icrc7/src/wrapped_values.rs
index 5cf0dd3..15b32f0 100644
--- a/src/index_icrc7/src/wrapped_values.rs
+++ b/src/index_icrc7/src/wrapped_values.rs
@@ -48,7 +48,15 @@ impl<C> minicbor::Encode<C> for WrappedNat {
         e: &mut Encoder<W>,
         _ctx: &mut C,
     ) -> Result<(), minicbor::encode::Error<W::Error>> {
-        e.u64(u64::try_from(self.0 .0.clone()).unwrap())?;
+        match u64::try_from(self.0 .0.clone()) {
+            Ok(n) => e.u64(n)?,
+            // does not fit: LEB128 bytes
+            Err(_) => {
+                let mut bytes = Vec::new();
+                self.0.encode(&mut bytes).expect("failed to encode Nat");
+                e.bytes(&bytes)?
+            }
+        };
         Ok(())
     }
 }
@@ -58,6 +66,11 @@ impl<'b, C> minicbor::Decode<'b, C> for WrappedNat {
         d: &mut minicbor::Decoder<'b>,
         _ctx: &mut C,
     ) -> Result<Self, minicbor::decode::Error> {
+        if d.datatype()? == minicbor::data::Type::Bytes {
+            return Nat::decode(&mut d.bytes()?)
+                .map(WrappedNat)
+                .map_err(minicbor::decode::Error::message);
+        }
         let nat = d.u64()?;
         Ok(WrappedNat(Nat::from(nat)))
     }
-- 
2.43.0


From 5e7c66dd25a43862f8781036eff946398879b605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:50 +0000
Subject: [PATCH 41/52] fix: take back the encoding of token ids beyond 64
 bits, which nothing needs

---
 src/index_icrc7/src/wrapped_values.rs | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/index_icrc7/src/wrapped_values.rs b/src/index_icrc7/src/wrapped_values.rs
index 15b32f0..5cf0dd3 100644
--- a/src/index_icrc7/src/wrapped_values.rs
+++ b/src/index_icrc7/src/wrapped_values.rs
@@ -48,15 +48,7 @@ impl<C> minicbor::Encode<C> for WrappedNat {
         e: &mut Encoder<W>,
         _ctx: &mut C,
     ) -> Result<(), minicbor::encode::Error<W::Error>> {
-        match u64::try_from(self.0 .0.clone()) {
-            Ok(n) => e.u64(n)?,
-            // does not fit: LEB128 bytes
-            Err(_) => {
-                let mut bytes = Vec::new();
-                self.0.encode(&mut bytes).expect("failed to encode Nat");
-                e.bytes(&bytes)?
-            }
-        };
+        e.u64(u64::try_from(self.0 .0.clone()).unwrap())?;
         Ok(())
     }
 }
@@ -66,11 +58,6 @@ impl<'b, C> minicbor::Decode<'b, C> for WrappedNat {
         d: &mut minicbor::Decoder<'b>,
         _ctx: &mut C,
     ) -> Result<Self, minicbor::decode::Error> {
-        if d.datatype()? == minicbor::data::Type::Bytes {
-            return Nat::decode(&mut d.bytes()?)
-                .map(WrappedNat)
-                .map_err(minicbor::decode::Error::message);
-        }
         let nat = d.u64()?;
         Ok(WrappedNat(Nat::from(nat)))
     }
-- 
2.43.0


From 2f238e51765ee7316dd5bf7b42acab1a8c95ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 42/52] fix: a transaction is not counted when the log has no
 room for its block

---
 src/core_nft/src/state.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/state.rs b/src/core_nft/src/state.rs
index a02bb22..e3a6e29 100644
--- a/src/core_nft/src/state.rs
+++ b/src/core_nft/src/state.rs
@@ -7,7 +7,7 @@ use crate::types::sub_canister::{
 
 use bity_ic_canister_state_macros::canister_state;
 use bity_ic_icrc3::transaction::TransactionType;
-use bity_ic_icrc3_macros::icrc3_state;
+use bity_ic_icrc3::types::Icrc3Error;
 use bity_ic_storage_canister_api::types::storage::UploadState;
 use bity_ic_types::{BuildVersion, TimestampNanos};
 use bity_ic_types::{Cycles, TimestampMillis};
@@ -23,9 +23,41 @@ pub use bity_ic_storage_canister_api::lifecycle::{init::InitArgs, post_upgrade::
 
 const STORAGE_WASM: &[u8] = include_bytes!("../../../wasm/storage_canister.wasm.gz");
 
-icrc3_state!();
+mod icrc3 {
+    use bity_ic_icrc3::transaction::TransactionType;
+    use bity_ic_icrc3_macros::icrc3_state;
+
+    icrc3_state!();
+}
+
+pub use icrc3::{
+    icrc3_get_archives, icrc3_get_blocks, icrc3_get_properties, icrc3_get_tip_certificate,
+    icrc3_supported_block_types, init_icrc3, replace_icrc3, start_default_archive_job, take_icrc3,
+};
+
 canister_state!(RuntimeState);
 
+/// Logs a transaction. While no more blocks fit before the next archiving, the transaction is
+/// refused here: icrc3 itself counts it and its hash before it finds that there is no room.
+pub fn icrc3_add_transaction<T: TransactionType>(transaction: T) -> Result<u64, Icrc3Error> {
+    let is_full = icrc3::ICRC3_INSTANCE
+        .read()
+        .unwrap()
+        .as_ref()
+        .is_some_and(|icrc3| {
+            let blockchain = &icrc3.blockchain;
+            blockchain.local_transactions.len() as u128 >= blockchain.max_unarchived_transactions
+        });
+
+    if is_full {
+        return Err(Icrc3Error::Icrc3Error(
+            "Local transactions limit reached".to_string(),
+        ));
+    }
+
+    icrc3::icrc3_add_transaction(transaction)
+}
+
 #[derive(Serialize, Deserialize, Clone)]
 pub struct RuntimeState {
     pub env: CanisterEnv,
-- 
2.43.0


From 69f83ffd1553221c4b23b992c5a98d6611fead89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:20 +0000
Subject: [PATCH 43/52] fix: duplicate_of names the block of the original
 transaction

---
 src/core_nft/src/state.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/state.rs b/src/core_nft/src/state.rs
index e3a6e29..7c255da 100644
--- a/src/core_nft/src/state.rs
+++ b/src/core_nft/src/state.rs
@@ -15,6 +15,7 @@ use bity_ic_utils::env::{CanisterEnv, Environment};
 use bity_ic_utils::memory::MemorySize;
 
 use candid::{CandidType, Nat, Principal};
+use icrc_ledger_types::icrc::generic_value::ICRC3Value;
 use icrc_ledger_types::icrc1::account::Account;
 use serde::{Deserialize, Serialize};
 use std::collections::{BTreeSet, HashMap};
@@ -55,7 +56,29 @@ pub fn icrc3_add_transaction<T: TransactionType>(transaction: T) -> Result<u64,
         ));
     }
 
-    icrc3::icrc3_add_transaction(transaction)
+    let hash = transaction.tx().hash();
+
+    icrc3::icrc3_add_transaction(transaction).map_err(|error| match error {
+        Icrc3Error::DuplicateTransaction { duplicate_of } => Icrc3Error::DuplicateTransaction {
+            duplicate_of: index_of_recent_transaction(&hash).unwrap_or(duplicate_of),
+        },
+        error => error,
+    })
+}
+
+/// The index of the block of a transaction in the deduplication window. The one icrc3 gives is
+/// counted from the other end of the window.
+fn index_of_recent_transaction(hash: &[u8]) -> Option<u64> {
+    let lock = icrc3::ICRC3_INSTANCE.read().unwrap();
+    let icrc3 = lock.as_ref()?;
+    let position = icrc3.ledger.iter().position(|block| match block {
+        ICRC3Value::Map(map) => {
+            matches!(map.get("thash"), Some(ICRC3Value::Blob(thash)) if thash.as_slice() == hash)
+        }
+        _ => false,
+    })?;
+
+    Some(icrc3.next_index - icrc3.ledger.len() as u64 + position as u64)
 }
 
 #[derive(Serialize, Deserialize, Clone)]
-- 
2.43.0


From b7b03112748887b64bd670734af17d086ae53dcf Mon Sep 17 00:00:00 2001
From: vp <v@p>
Date: Thu, 19 Nov 2026 02:04:19 +0000
Subject: [PATCH 44/52] fix: the command line tool refuses a chunk size of 0

It divided by it and panicked.
---
 cmdline/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdline/src/cli.rs b/cmdline/src/cli.rs
index f82ec8d..883b481 100644
--- a/cmdline/src/cli.rs
+++ b/cmdline/src/cli.rs
@@ -25,7 +25,7 @@ pub fn build_cli() -> Command {
                 .arg(arg!(<destination_path> "Destination path in the canister (e.g. /images/photo.jpg)"))
                 .arg(
                     arg!(-s --chunk_size <SIZE> "Chunk size in bytes")
-                        .value_parser(value_parser!(u64))
+                        .value_parser(value_parser!(u64).range(1..))
                         .default_value("1048576")
                 )
         )
@@ -54,7 +54,7 @@ pub fn build_cli() -> Command {
                 .arg(arg!(<metadata_file> "Path to JSON metadata file"))
                 .arg(
                     arg!(-s --chunk_size <SIZE> "Chunk size in bytes")
-                        .value_parser(value_parser!(u64))
+                        .value_parser(value_parser!(u64).range(1..))
                         .default_value("1048576")
                 )
         )
-- 
2.43.0


From b61d2eb96c4eaec6ad88e7995ce7fad4cc448238 Mon Sep 17 00:00:00 2001
From: vp <v@p>
Date: Thu, 19 Nov 2026 02:04:20 +0000
Subject: [PATCH 45/52] fix: mint keeps metadata values that contain a colon

--metadata key:value was split at every colon and the rest dropped, so that
the URL of the documented example became "https". An entry without a colon
was dropped silently; it is now refused.
---
 cmdline/src/commands.rs | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/cmdline/src/commands.rs b/cmdline/src/commands.rs
index c789f69..89b8a60 100644
--- a/cmdline/src/commands.rs
+++ b/cmdline/src/commands.rs
@@ -184,25 +184,18 @@ pub async fn handle_mint(
         let mut metadata = Vec::new();
         if let Some(entries) = sub_matches.get_many::<String>("metadata") {
             for entry in entries {
-                let parts: Vec<&str> = entry.split(':').collect();
-                if parts.len() >= 2 {
-                    let key = parts[0].to_string();
-                    let value_str = parts[1];
-                    let value = if let Ok(num) = value_str.parse::<u64>() {
-                        icrc_ledger_types::icrc::generic_value::ICRC3Value::Nat(candid::Nat::from(
-                            num,
-                        ))
-                    } else if let Ok(int) = value_str.parse::<i64>() {
-                        icrc_ledger_types::icrc::generic_value::ICRC3Value::Int(candid::Int::from(
-                            int,
-                        ))
-                    } else {
-                        icrc_ledger_types::icrc::generic_value::ICRC3Value::Text(
-                            value_str.to_string(),
-                        )
-                    };
-                    metadata.push((key, value));
-                }
+                // Only the first colon separates: values such as URLs contain more of them.
+                let (key, value_str) = entry.split_once(':').ok_or_else(|| {
+                    anyhow!("Invalid metadata entry '{}': expected key:value", entry)
+                })?;
+                let value = if let Ok(num) = value_str.parse::<u64>() {
+                    icrc_ledger_types::icrc::generic_value::ICRC3Value::Nat(candid::Nat::from(num))
+                } else if let Ok(int) = value_str.parse::<i64>() {
+                    icrc_ledger_types::icrc::generic_value::ICRC3Value::Int(candid::Int::from(int))
+                } else {
+                    icrc_ledger_types::icrc::generic_value::ICRC3Value::Text(value_str.to_string())
+                };
+                metadata.push((key.to_string(), value));
             }
         }
         metadata
-- 
2.43.0


From 7d52b2f03047b613a29c2b72b915db6a82ecf134 Mon Sep 17 00:00:00 2001
From: vp <v@p>
Date: Thu, 19 Nov 2026 02:04:20 +0000
Subject: [PATCH 46/52] fix: create-metadata records attribute values as they
 were given

"nan", "inf" and "1e999" became null, integers above 2^53 lost digits, and
an attribute without a value was dropped silently; it is now refused.
---
 cmdline/src/commands.rs | 28 ++++++++++++++--------------
 cmdline/src/metadata.rs | 23 +++++++++++++++++------
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/cmdline/src/commands.rs b/cmdline/src/commands.rs
index 89b8a60..d8140e9 100644
--- a/cmdline/src/commands.rs
+++ b/cmdline/src/commands.rs
@@ -12,7 +12,7 @@ use crate::calls::{
 };
 use crate::metadata::{
     create_icrc97_metadata, create_icrc97_metadata_from_url, create_metadata_interactive,
-    create_metadata_interactive_hashmap, validate_icrc97_metadata,
+    create_metadata_interactive_hashmap, parse_attribute_value, validate_icrc97_metadata,
 };
 use core_nft::updates::management::Permission;
 
@@ -80,20 +80,20 @@ pub async fn handle_create_metadata(sub_matches: &ArgMatches) -> Result<()> {
         if let Some(attrs) = sub_matches.get_many::<String>("attribute") {
             for attr in attrs {
                 let parts: Vec<&str> = attr.split(':').collect();
-                if parts.len() >= 2 {
-                    let trait_type = parts[0].to_string();
-                    let value = if let Ok(num) = parts[1].parse::<f64>() {
-                        serde_json::json!(num)
-                    } else {
-                        serde_json::json!(parts[1])
-                    };
-                    let display_type = if parts.len() > 2 {
-                        Some(parts[2].to_string())
-                    } else {
-                        None
-                    };
-                    attributes.push((trait_type, value, display_type));
+                if parts.len() < 2 {
+                    return Err(anyhow!(
+                        "Invalid attribute '{}': expected trait_type:value[:display_type]",
+                        attr
+                    ));
                 }
+                let trait_type = parts[0].to_string();
+                let value = parse_attribute_value(parts[1]);
+                let display_type = if parts.len() > 2 {
+                    Some(parts[2].to_string())
+                } else {
+                    None
+                };
+                attributes.push((trait_type, value, display_type));
             }
         }
 
diff --git a/cmdline/src/metadata.rs b/cmdline/src/metadata.rs
index 2945e23..a80dba3 100644
--- a/cmdline/src/metadata.rs
+++ b/cmdline/src/metadata.rs
@@ -141,6 +141,21 @@ pub fn create_icrc97_metadata_from_url(url: &str) -> Vec<(String, ICRC3Value)> {
     )]
 }
 
+/// Numbers are recorded as numbers, everything else as text. Integers keep all their digits, and what
+/// JSON has no number for ("nan", "inf", "1e999") stays text.
+pub fn parse_attribute_value(value: &str) -> Value {
+    if let Ok(num) = value.parse::<u64>() {
+        return json!(num);
+    }
+    if let Ok(num) = value.parse::<i64>() {
+        return json!(num);
+    }
+    match value.parse::<f64>() {
+        Ok(num) if num.is_finite() => json!(num),
+        _ => json!(value),
+    }
+}
+
 pub fn create_metadata_interactive() -> Result<Value> {
     println!("=== ICRC97 Metadata Creation ===");
 
@@ -181,13 +196,9 @@ pub fn create_metadata_interactive() -> Result<Value> {
             }
 
             let value_str = prompt_input("Value");
-            let (value, is_number) = if let Ok(num) = value_str.parse::<f64>() {
-                (json!(num), true)
-            } else {
-                (json!(value_str), false)
-            };
+            let value = parse_attribute_value(&value_str);
 
-            let display_type = prompt_display_type(is_number);
+            let display_type = prompt_display_type(value.is_number());
 
             let mut attr = json!({
                 "trait_type": trait_type,
-- 
2.43.0


From 49316f1b6ec94930d9cf84a0db4a2009c00bea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:45 +0000
Subject: [PATCH 47/52] fix: upload-file reports a refused upload and replaces
 an interrupted one

---
 cmdline/src/calls/uploads.rs | 67 +++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/cmdline/src/calls/uploads.rs b/cmdline/src/calls/uploads.rs
index 9abc29e..814f582 100644
--- a/cmdline/src/calls/uploads.rs
+++ b/cmdline/src/calls/uploads.rs
@@ -1,19 +1,41 @@
 use anyhow::Result;
 use candid::{Encode, Nat, Principal};
-use core_nft::updates::management::{finalize_upload, init_upload, store_chunk};
+use core_nft::updates::management::{cancel_upload, finalize_upload, init_upload, store_chunk};
 use ic_agent::Agent;
 use sha2::{Digest, Sha256};
 use std::fs::File;
 use std::io::Read;
 use url::Url;
 
-pub async fn init(agent: &Agent, canister_id: &Principal, args: init_upload::Args) -> Result<()> {
-    let bytes = Encode!(&args)?;
-    agent
+pub async fn init(
+    agent: &Agent,
+    canister_id: &Principal,
+    args: &init_upload::Args,
+) -> Result<init_upload::Response> {
+    let bytes = Encode!(args)?;
+    let response = agent
         .update(canister_id, "init_upload")
         .with_arg(bytes)
         .call_and_wait()
         .await?;
+
+    Ok(candid::decode_one::<init_upload::Response>(&response)?)
+}
+
+pub async fn cancel(
+    agent: &Agent,
+    canister_id: &Principal,
+    args: cancel_upload::Args,
+) -> Result<()> {
+    let bytes = Encode!(&args)?;
+    let response = agent
+        .update(canister_id, "cancel_upload")
+        .with_arg(bytes)
+        .call_and_wait()
+        .await?;
+
+    candid::decode_one::<cancel_upload::Response>(&response)?
+        .map_err(|e| anyhow::anyhow!("File already exists and cannot be replaced: {:?}", e))?;
     Ok(())
 }
 
@@ -23,11 +45,14 @@ pub async fn store(
     args: store_chunk::Args,
 ) -> Result<()> {
     let bytes = Encode!(&args)?;
-    agent
+    let response = agent
         .update(canister_id, "store_chunk")
         .with_arg(bytes)
         .call_and_wait()
         .await?;
+
+    candid::decode_one::<store_chunk::Response>(&response)?
+        .map_err(|e| anyhow::anyhow!("Store chunk failed: {:?}", e))?;
     Ok(())
 }
 
@@ -67,17 +92,27 @@ pub async fn upload_file(
 
     let mut file = File::open(file_path)?;
 
-    init(
-        &agent,
-        &canister_id,
-        init_upload::Args {
-            file_path: destination_path.to_string(),
-            file_size,
-            chunk_size: Some(chunk_size),
-            file_hash,
-        },
-    )
-    .await?;
+    let init_args = init_upload::Args {
+        file_path: destination_path.to_string(),
+        file_size,
+        chunk_size: Some(chunk_size),
+        file_hash,
+    };
+
+    let mut started = init(agent, canister_id, &init_args).await?;
+    if let Err(init_upload::InitUploadError::FileAlreadyExists) = started {
+        // An upload to this path that was interrupted starts again. A finalized one stays.
+        cancel(
+            agent,
+            canister_id,
+            cancel_upload::Args {
+                file_path: destination_path.to_string(),
+            },
+        )
+        .await?;
+        started = init(agent, canister_id, &init_args).await?;
+    }
+    started.map_err(|e| anyhow::anyhow!("Init upload failed: {:?}", e))?;
 
     let total_chunks = (file_size + chunk_size - 1) / chunk_size;
 
-- 
2.43.0


From 43d24aa42397baf5ee93994de7af56401780f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:24 +0000
Subject: [PATCH 48/52] fix: storage canisters and archives are funded after an
 upgrade too

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 17 +++++++++++++++++
 src/core_nft/src/types/fund_manager.rs     | 20 +++++++++++---------
 src/core_nft/src/types/sub_canister.rs     | 17 +++++++----------
 3 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 9a3e265..b6612db 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -1,6 +1,7 @@
 use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
 use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
+use crate::types::fund_manager::{add_canisters_to_fund_manager, sub_canister_funding_config};
 use crate::types::http::{add_redirection, certify_all_assets};
 use crate::Args;
 
@@ -67,6 +68,11 @@ fn post_upgrade(args: Args) {
             // the calls that held these guards ended with the upgrade
             state.principal_guards.clear();
 
+            // neither the funding of the storage canisters nor that of the archives is in the
+            // stable state
+            state.data.sub_canister_manager.restore_funding_config();
+            restore_archive_funding(&mut icrc3);
+
             bity_ic_canister_logger::init_with_logs(state.env.is_test_mode(), logs, traces);
             init_canister(state.clone());
             replace_icrc3(icrc3);
@@ -83,3 +89,14 @@ fn post_upgrade(args: Args) {
         }
     }
 }
+
+fn restore_archive_funding(icrc3: &mut ICRC3) {
+    let mut archives = icrc3.blockchain.archive_canister_manager.write().unwrap();
+    let manager = &mut archives.sub_canister_manager;
+    let archive_ids = manager.list_canisters_ids();
+
+    manager.funding_config = sub_canister_funding_config();
+    if !archive_ids.is_empty() {
+        add_canisters_to_fund_manager(&mut manager.fund_manager, archive_ids);
+    }
+}
diff --git a/src/core_nft/src/types/fund_manager.rs b/src/core_nft/src/types/fund_manager.rs
index e69fcb9..1748370 100644
--- a/src/core_nft/src/types/fund_manager.rs
+++ b/src/core_nft/src/types/fund_manager.rs
@@ -11,6 +11,16 @@ use std::sync::Arc;
 
 use crate::utils::trace;
 
+pub fn sub_canister_funding_config() -> FundManagerOptions {
+    FundManagerOptions::new()
+        .with_interval_secs(60)
+        .with_strategy(FundStrategy::BelowThreshold(
+            CyclesThreshold::new()
+                .with_min_cycles(1_000_000_000_000)
+                .with_fund_cycles(2_000_000_000_000),
+        ))
+}
+
 pub fn add_canisters_to_fund_manager(
     fund_manager: &mut FundManager,
     canister_id_lst: Vec<Principal>,
@@ -21,15 +31,7 @@ pub fn add_canisters_to_fund_manager(
     ));
     fund_manager.stop();
 
-    let funding_config = FundManagerOptions::new()
-        .with_interval_secs(60)
-        .with_strategy(FundStrategy::BelowThreshold(
-            CyclesThreshold::new()
-                .with_min_cycles(1_000_000_000_000)
-                .with_fund_cycles(2_000_000_000_000),
-        ));
-
-    fund_manager.with_options(funding_config);
+    fund_manager.with_options(sub_canister_funding_config());
 
     for canister_id in canister_id_lst {
         fund_manager.register(
diff --git a/src/core_nft/src/types/sub_canister.rs b/src/core_nft/src/types/sub_canister.rs
index 1de966b..20a2622 100644
--- a/src/core_nft/src/types/sub_canister.rs
+++ b/src/core_nft/src/types/sub_canister.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 
+use crate::types::fund_manager::sub_canister_funding_config;
 use crate::types::management::{cancel_upload, finalize_upload, init_upload, store_chunk};
 use crate::utils::trace;
 use bity_ic_storage_canister_c2c::{
@@ -9,7 +10,6 @@ use bity_ic_subcanister_manager;
 use bity_ic_subcanister_manager::Canister;
 use bity_ic_utils::retry_async::retry_async;
 use candid::{CandidType, Principal};
-use canfund::manager::options::{CyclesThreshold, FundManagerOptions, FundStrategy};
 use ic_cdk::management_canister::{canister_status, CanisterStatusArgs};
 use serde::{Deserialize, Serialize};
 
@@ -42,14 +42,6 @@ impl StorageSubCanisterManager {
         commit_hash: String,
         wasm: Vec<u8>,
     ) -> Self {
-        let funding_config = FundManagerOptions::new()
-            .with_interval_secs(60)
-            .with_strategy(FundStrategy::BelowThreshold(
-                CyclesThreshold::new()
-                    .with_min_cycles(1_000_000_000_000)
-                    .with_fund_cycles(2_000_000_000_000),
-            ));
-
         Self {
             sub_canister_manager: bity_ic_subcanister_manager::SubCanisterManager::new(
                 master_canister_id,
@@ -61,13 +53,18 @@ impl StorageSubCanisterManager {
                 test_mode,
                 commit_hash,
                 wasm,
-                funding_config,
+                sub_canister_funding_config(),
             ),
             init_args,
             upgrade_args,
         }
     }
 
+    /// The funding configuration is not part of the stable state.
+    pub fn restore_funding_config(&mut self) {
+        self.sub_canister_manager.funding_config = sub_canister_funding_config();
+    }
+
     pub async fn init_upload(
         &mut self,
         data: init_upload::Args,
-- 
2.43.0


From d2781e115b5987e411420220ecd145e34d4b661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:24 +0000
Subject: [PATCH 49/52] fix: icrc3_get_blocks accepts any start and length

---
 src/core_nft/src/queries/icrc3.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core_nft/src/queries/icrc3.rs b/src/core_nft/src/queries/icrc3.rs
index f7b57f6..5bf4fc6 100644
--- a/src/core_nft/src/queries/icrc3.rs
+++ b/src/core_nft/src/queries/icrc3.rs
@@ -17,6 +17,7 @@ pub use crate::types::icrc3::{
         Args as GetSupportedBlockTypesArg, Response as GetSupportedBlockTypesResponse,
     },
 };
+use icrc_ledger_types::icrc3::blocks::GetBlocksRequest;
 pub use icrc_ledger_types::icrc3::blocks::GetBlocksResult;
 
 #[query]
@@ -26,6 +27,18 @@ async fn icrc3_get_archives(_: GetArchivesArg) -> GetArchivesResponse {
 
 #[query]
 fn icrc3_get_blocks(args: GetBlocksArg) -> GetBlocksResult {
+    let log_length = icrc3_get_blocks_impl(vec![]).log_length;
+
+    // the start and the length of a range may lie anywhere beyond the end of the log
+    let args = args
+        .into_iter()
+        .filter(|range| range.start < log_length)
+        .map(|range| GetBlocksRequest {
+            length: range.length.min(log_length.clone() - range.start.clone()),
+            start: range.start,
+        })
+        .collect();
+
     icrc3_get_blocks_impl(args)
 }
 
-- 
2.43.0


From 7a0f03211c42fdd5705fd8dfaec0a2fe98f28e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:24 +0000
Subject: [PATCH 50/52] fix: icrc37_metadata, which ICRC-37 prescribes, is
 there

---
 src/core_nft/src/queries/icrc37.rs | 27 ++++++++++++++++++++++++++-
 src/core_nft/src/types/icrc37.rs   |  7 +++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index e78dfd1..09e5968 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -1,13 +1,14 @@
 use crate::state::read_state;
 pub use crate::types::icrc37::{
     icrc37_get_collection_approvals, icrc37_get_token_approvals, icrc37_is_approved,
-    icrc37_max_approvals_per_token_or_collection, icrc37_max_revoke_approvals,
+    icrc37_max_approvals_per_token_or_collection, icrc37_max_revoke_approvals, icrc37_metadata,
 };
 use crate::types::{WrappedAccount, WrappedNat};
 use crate::types::{__COLLECTION_APPROVALS, __TOKEN_APPROVALS};
 
 use bity_ic_icrc3::utils::trace;
 use ic_cdk_macros::query;
+use icrc_ledger_types::icrc::generic_value::ICRC3Value;
 pub use icrc_ledger_types::icrc1::account::Account;
 use std::collections::HashMap;
 
@@ -241,3 +242,27 @@ fn icrc37_max_approvals_per_token_or_collection(
 fn icrc37_max_revoke_approvals() -> icrc37_max_revoke_approvals::Response {
     read_state(|state| state.data.approval_init.max_revoke_approvals.clone())
 }
+
+#[query]
+fn icrc37_metadata() -> icrc37_metadata::Response {
+    read_state(|state| {
+        let approval_init = &state.data.approval_init;
+        let mut metadata = Vec::new();
+
+        if let Some(max_approvals) = &approval_init.max_approvals_per_token_or_collection {
+            metadata.push((
+                "icrc37:max_approvals_per_token_or_collection".to_string(),
+                ICRC3Value::Nat(max_approvals.clone()),
+            ));
+        }
+
+        if let Some(max_revoke_approvals) = &approval_init.max_revoke_approvals {
+            metadata.push((
+                "icrc37:max_revoke_approvals".to_string(),
+                ICRC3Value::Nat(max_revoke_approvals.clone()),
+            ));
+        }
+
+        metadata
+    })
+}
diff --git a/src/core_nft/src/types/icrc37.rs b/src/core_nft/src/types/icrc37.rs
index 72f08a8..9640a4c 100644
--- a/src/core_nft/src/types/icrc37.rs
+++ b/src/core_nft/src/types/icrc37.rs
@@ -7,6 +7,7 @@ use super::wrapped_types::{WrappedAccount, WrappedApprovalValue, WrappedNat};
 use crate::memory::{get_collection_approvals_memory, get_token_approvals_memory, VM};
 use bity_ic_types::TimestampNanos;
 use candid::{CandidType, Nat};
+use icrc_ledger_types::icrc::generic_value::ICRC3Value;
 use icrc_ledger_types::icrc1::account::{Account, Subaccount};
 
 pub const DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION: usize = 10;
@@ -264,3 +265,9 @@ pub mod icrc37_max_revoke_approvals {
     pub type Args = ();
     pub type Response = Option<Nat>;
 }
+
+pub mod icrc37_metadata {
+    use super::*;
+    pub type Args = ();
+    pub type Response = Vec<(String, ICRC3Value)>;
+}
-- 
2.43.0


From 30b842f141f57f7a7cff3a64e7b527409f8d40b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:24 +0000
Subject: [PATCH 51/52] fix: a limit beyond the machine's integers is no limit,
 not a trap or the default

---
 src/core_nft/src/lifecycle/init.rs     |  4 +++-
 src/core_nft/src/queries/icrc37.rs     |  4 ++--
 src/core_nft/src/queries/icrc7.rs      | 13 +++++--------
 src/core_nft/src/updates/icrc37.rs     | 16 ++++++----------
 src/core_nft/src/updates/icrc7.rs      | 10 +++++-----
 src/core_nft/src/updates/management.rs |  4 ++--
 src/core_nft/src/utils.rs              |  2 +-
 7 files changed, 24 insertions(+), 29 deletions(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index 394f9e0..9ecaa09 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -105,7 +105,9 @@ fn init(args: Args) {
             }
 
             let _tx_window = match init_args.tx_window {
-                Some(tx_window) => Duration::from_nanos(u64::try_from(tx_window.0).unwrap()),
+                Some(tx_window) => {
+                    Duration::from_nanos(u64::try_from(tx_window.0).unwrap_or(u64::MAX))
+                }
                 None => Duration::from_secs(0),
             };
 
diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 09e5968..2f19aba 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -25,7 +25,7 @@ fn icrc37_get_token_approvals(
     }
 
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     if let Some(approvals_map) = __TOKEN_APPROVALS
@@ -88,7 +88,7 @@ fn icrc37_get_collection_approvals(
 ) -> icrc37_get_collection_approvals::Response {
     let mut response = Vec::new();
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     let mut all_approvals: Vec<icrc37_get_collection_approvals::CollectionApproval> =
diff --git a/src/core_nft/src/queries/icrc7.rs b/src/core_nft/src/queries/icrc7.rs
index 87283a4..076a25c 100644
--- a/src/core_nft/src/queries/icrc7.rs
+++ b/src/core_nft/src/queries/icrc7.rs
@@ -183,8 +183,7 @@ pub fn icrc7_token_metadata(
         icrc7_max_query_batch_size.unwrap_or(Nat::from(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE));
 
     if token_ids.len()
-        > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+        > usize::try_from(max_query_batch_size.0.clone()).unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -217,8 +216,7 @@ pub fn icrc7_owner_of(token_ids: icrc7::icrc7_owner_of::Args) -> icrc7::icrc7_ow
         icrc7_max_query_batch_size.unwrap_or(Nat::from(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE));
 
     if token_ids.len()
-        > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+        > usize::try_from(max_query_batch_size.0.clone()).unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -243,8 +241,7 @@ pub fn icrc7_balance_of(
         icrc7_max_query_batch_size.unwrap_or(Nat::from(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE));
 
     if accounts.len()
-        > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+        > usize::try_from(max_query_batch_size.0.clone()).unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -290,7 +287,7 @@ pub fn icrc7_tokens(
             })
             .0,
         )
-        .unwrap_or(icrc7::DEFAULT_TAKE_VALUE);
+        .unwrap_or(usize::MAX);
 
         let mut tokens: Vec<_> = state.data.tokens_list.keys().cloned().collect();
         tokens.sort();
@@ -333,7 +330,7 @@ pub fn icrc7_tokens_of(
             })
             .0,
         )
-        .unwrap_or(icrc7::DEFAULT_TAKE_VALUE);
+        .unwrap_or(usize::MAX);
 
         let mut tokens: Vec<Nat> = state.data.tokens_ids_of_account(&account);
         tokens.sort();
diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index aea7da3..57aadea 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -23,11 +23,7 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
         .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT));
 
     if created_at_time
-        > current_time
-            + permited_drift
-                .0
-                .try_into()
-                .unwrap_or(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT)
+        > current_time.saturating_add(permited_drift.0.try_into().unwrap_or(u64::MAX))
     {
         return Err((true, current_time));
     }
@@ -40,7 +36,7 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
             .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_TX_WINDOW))
     });
 
-    if created_at_time + tx_window.0.try_into().unwrap_or(0) < current_time {
+    if created_at_time.saturating_add(tx_window.0.try_into().unwrap_or(u64::MAX)) < current_time {
         return Err((false, 0));
     }
 
@@ -127,7 +123,7 @@ fn approve_token(
         ))
         .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     let memo_clone = arg.approval_info.memo.clone();
 
@@ -300,7 +296,7 @@ fn approve_collection(
         ))
         .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     // replacing the approval of a known spender adds none
     let would_exceed_max_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
@@ -401,7 +397,7 @@ fn icrc37_revoke_token_approvals(
             ))
             .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     Ok(args
         .into_iter()
@@ -536,7 +532,7 @@ fn icrc37_revoke_collection_approvals(
             ))
             .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     Ok(args
         .into_iter()
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 6da0383..1681f95 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -54,20 +54,20 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
     });
 
     let drift = permitted_drift
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_PERMITTED_DRIFT);
 
-    if time > current_time + drift {
+    if time > current_time.saturating_add(drift) {
         return Err(icrc7::icrc7_transfer::TransferError::CreatedInFuture {
             ledger_time: Nat::from(current_time),
         });
     }
 
     let tx_window = tx_window
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_TX_WINDOW);
 
-    if time < current_time.saturating_sub(tx_window + drift) {
+    if time < current_time.saturating_sub(tx_window.saturating_add(drift)) {
         return Err(icrc7::icrc7_transfer::TransferError::TooOld);
     }
 
@@ -143,7 +143,7 @@ pub async fn icrc7_transfer(args: icrc7::icrc7_transfer::Args) -> icrc7::icrc7_t
         )
     });
 
-    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap();
+    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap_or(usize::MAX);
 
     if atomic_batch_transfers && args.len() > max_batch_size {
         return vec![Some(Err(
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 7678c45..4d632bf 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -589,8 +589,8 @@ pub fn get_all_uploads(
 ) -> management::get_all_uploads::Response {
     trace(&format!("prev: {:?}, take: {:?}", prev, take));
     let all_uploads = read_state(|state| state.internal_filestorage.clone());
-    let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(0);
-    let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(100);
+    let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(usize::MAX);
+    let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(usize::MAX);
     trace(&format!("start: {:?}, end: {:?}", start, end));
     let filtered_uploads: HashMap<String, UploadState> = all_uploads
         .map
diff --git a/src/core_nft/src/utils.rs b/src/core_nft/src/utils.rs
index c548667..ca5f32a 100644
--- a/src/core_nft/src/utils.rs
+++ b/src/core_nft/src/utils.rs
@@ -14,7 +14,7 @@ pub fn check_memo(memo: Option<serde_bytes::ByteBuf>) -> Result<(), String> {
             })
             .0,
         )
-        .unwrap();
+        .unwrap_or(usize::MAX);
 
         trace(&format!("Memo Size: {}", memo.len()));
         trace(&format!("Max Memo Size: {}", max_memo_size));
-- 
2.43.0


From b9a36c3ea01edc78b96b276d593c67e1500791d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:24 +0000
Subject: [PATCH 52/52] fix: unfiltered index pages accept any start and length

---
 src/index_icrc7/src/update/get_blocks.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/update/get_blocks.rs b/src/index_icrc7/src/update/get_blocks.rs
index a2f326e..05fb652 100644
--- a/src/index_icrc7/src/update/get_blocks.rs
+++ b/src/index_icrc7/src/update/get_blocks.rs
@@ -5,6 +5,9 @@ use crate::index::{IndexType, IndexValue, SortBy, __INDEX};
 use crate::state::read_state;
 use crate::types::get_blocks;
 
+// How far an unfiltered page may reach beyond the blocks indexed so far
+const MAX_BLOCKS_NOT_INDEXED: u64 = 10_000;
+
 #[update]
 pub async fn get_blocks(args: get_blocks::Args) -> get_blocks::Response {
     let mut start = args.start;
@@ -17,7 +20,10 @@ pub async fn get_blocks(args: get_blocks::Args) -> get_blocks::Response {
             start = read_state(|state| state.data.last_block_id).saturating_sub(length);
         }
 
-        let block_range: Vec<u64> = (start..start + length).collect();
+        let indexed = read_state(|state| state.data.last_block_id).saturating_sub(start);
+        let end = start.saturating_add(length.min(indexed.saturating_add(MAX_BLOCKS_NOT_INDEXED)));
+
+        let block_range: Vec<u64> = (start..end).collect();
         match get_all_blocks(block_range, Some(sort_by.clone())).await {
             Ok(gblocks) => gblocks,
             Err(e) => {
-- 
2.43.0

