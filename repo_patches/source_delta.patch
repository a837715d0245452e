From 3e71b7d288977c3015ca480779f7084fdcd71a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 01/38] fix: charge program-scope spending against the acting
 role's own baseline

The account classifier reads the watched balance through the first scope any
role holds for the account; a role with a different scope on the same account
was charged relative to that foreign reading and could spend without limit.
---
 program/src/actions/sign_v2.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 178bb8c..55d02f2 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -23,7 +23,7 @@ use swig_state::{
         program::Program,
         program_all::ProgramAll,
         program_curated::ProgramCurated,
-        program_scope::{NumericType, ProgramScope},
+        program_scope::{NumericType, ProgramScope, ProgramScopeType},
         sol_destination_limit::SolDestinationLimit,
         sol_limit::SolLimit,
         sol_recurring_destination_limit::SolRecurringDestinationLimit,
@@ -306,7 +306,7 @@ pub fn sign_v2(
     let mut total_sol_spent: u64 = 0;
 
     // Build exclusion ranges for each account type for snapshots
-    for (index, account_classifier) in account_classifiers.iter().enumerate() {
+    for (index, account_classifier) in account_classifiers.iter_mut().enumerate() {
         let account = unsafe { all_accounts.get_unchecked(index) };
 
         // Only check writable accounts as read-only accounts won't modify data
@@ -338,7 +338,7 @@ pub fn sign_v2(
                 let hash = hash_except(&data, account.owner(), &exclude_ranges);
                 Some(hash)
             },
-            AccountClassification::ProgramScope { .. } => {
+            AccountClassification::ProgramScope { balance, .. } => {
                 let data = unsafe { account.borrow_data_unchecked() };
                 // For program scope, we need to get the actual program scope to know what to
                 // exclude, and include owner in hash
@@ -348,13 +348,22 @@ pub fn sign_v2(
                 {
                     let start = program_scope.balance_field_start as usize;
                     let end = program_scope.balance_field_end as usize;
-                    if start < end && end <= data.len() {
-                        let exclude_ranges = [start..end];
-                        let hash = hash_except(&data, account.owner(), &exclude_ranges);
-                        Some(hash)
-                    } else {
-                        None
+                    if start >= end || end > data.len() {
+                        return Err(SwigError::InvalidProgramScopeBalanceFields.into());
+                    }
+
+                    // The classifier read the balance through the first scope any role
+                    // holds for this account. Spending is charged to the acting role's
+                    // scope, so its baseline has to be read through that scope too.
+                    match program_scope.read_account_balance(data) {
+                        Ok(current) => *balance = current,
+                        Err(_) if program_scope.scope_type == ProgramScopeType::Basic as u64 => {},
+                        Err(e) => return Err(e),
                     }
+
+                    let exclude_ranges = [start..end];
+                    let hash = hash_except(&data, account.owner(), &exclude_ranges);
+                    Some(hash)
                 } else {
                     None
                 }
-- 
2.43.0


From 1bc56df132ac6db3574dc223b76b59cf153d3739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 02/38] fix: use the real Token-2022 and Stake program ids in
 the curated program list

---
 state/src/action/program_curated.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/state/src/action/program_curated.rs b/state/src/action/program_curated.rs
index fe5c488..e3cf6b5 100644
--- a/state/src/action/program_curated.rs
+++ b/state/src/action/program_curated.rs
@@ -24,13 +24,13 @@ const CURATED_PROGRAMS: &[[u8; 32]] = &[
     ],
     // SPL Token 2022 Program (TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb)
     [
-        6, 221, 246, 225, 238, 117, 143, 222, 138, 60, 137, 215, 166, 35, 250, 133, 224, 81, 209,
-        114, 91, 157, 99, 29, 94, 145, 213, 104, 233, 4, 16, 238,
+        6, 221, 246, 225, 238, 117, 143, 222, 24, 66, 93, 188, 228, 108, 205, 218, 182, 26, 252,
+        77, 131, 185, 13, 39, 254, 189, 249, 40, 216, 161, 139, 252,
     ],
     // Staking Program (Stake11111111111111111111111111111111111111)
     [
-        6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 86, 165, 18, 7,
-        142, 233, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+        6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 127, 83, 92,
+        138, 120, 114, 43, 104, 164, 157, 192, 0, 0, 0, 0,
     ],
 ];
 
-- 
2.43.0


From 573f282301e581c95d15779ab761f33ee3995217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 03/38] fix: keep parsed inner-instruction accounts alive and
 bounds-checked

---
 instructions/src/lib.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index 1bea396..a80613c 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -8,7 +8,7 @@
 /// - Restricted key handling
 /// - Memory-efficient instruction processing
 mod compact_instructions;
-use core::{marker::PhantomData, mem::MaybeUninit};
+use core::marker::PhantomData;
 
 pub use compact_instructions::*;
 use pinocchio::{
@@ -49,8 +49,8 @@ impl From<InstructionError> for ProgramError {
 pub struct InstructionHolder<'a> {
     pub program_id: &'a Pubkey,
     pub cpi_accounts: Vec<Account<'a>>,
-    pub indexes: &'a [usize],
-    pub accounts: &'a [AccountMeta<'a>],
+    pub indexes: Vec<usize>,
+    pub accounts: Vec<AccountMeta<'a>>,
     pub data: &'a [u8],
     pub uses_swig_signer: bool,
 }
@@ -65,7 +65,10 @@ impl<'a> InstructionHolder<'a> {
         if self.program_id == &pinocchio_system::ID
             && self.data.len() >= 12
             && unsafe { self.data.get_unchecked(0..4) == [2, 0, 0, 0] }
-            && unsafe { self.accounts.get_unchecked(0).pubkey == swig_key }
+            && self
+                .accounts
+                .first()
+                .is_some_and(|from| from.pubkey == swig_key)
         {
             // Check if the "from" account (swig_key) is system-owned or program-owned
             let from_account_index = unsafe { *self.indexes.get_unchecked(0) };
@@ -89,9 +92,10 @@ impl<'a> InstructionHolder<'a> {
                         .try_into()
                         .map_err(|_| ProgramError::InvalidInstructionData)?,
                 );
+                let (Some(index), Some(index2)) = (self.indexes.first(), self.indexes.get(1)) else {
+                    return Err(ProgramError::NotEnoughAccountKeys);
+                };
                 unsafe {
-                    let index = self.indexes.get_unchecked(0);
-                    let index2 = self.indexes.get_unchecked(1);
                     let account1 = all_accounts.get_unchecked(*index);
                     let account2 = all_accounts.get_unchecked(*index2);
 
@@ -150,7 +154,7 @@ impl<'a> InstructionHolder<'a> {
     pub fn borrow(&'a self) -> Instruction<'a, 'a, 'a, 'a> {
         Instruction {
             program_id: self.program_id,
-            accounts: self.accounts,
+            accounts: &self.accounts,
             data: self.data,
         }
     }
@@ -283,24 +287,25 @@ where
         let (num_accounts, cursor) = self.read_u8()?;
         self.cursor = cursor;
         let num_accounts = num_accounts as usize;
-        const AM_UNINIT: MaybeUninit<AccountMeta> = MaybeUninit::uninit();
-        let mut accounts = [AM_UNINIT; MAX_ACCOUNTS];
+        if num_accounts > MAX_ACCOUNTS {
+            return Err(InstructionError::MissingAccountInfo);
+        }
+        let mut accounts = Vec::with_capacity(num_accounts);
         let mut infos = Vec::with_capacity(num_accounts);
-        const INDEX_UNINIT: MaybeUninit<usize> = MaybeUninit::uninit();
-        let mut indexes = [INDEX_UNINIT; MAX_ACCOUNTS];
+        let mut indexes = Vec::with_capacity(num_accounts);
         let mut uses_swig_signer = false;
-        for i in 0..num_accounts {
+        for _ in 0..num_accounts {
             let (pubkey_index, cursor) = self.read_u8()?;
             self.cursor = cursor;
             let account = self.accounts.get_account(pubkey_index as usize)?;
-            indexes[i].write(pubkey_index as usize);
+            indexes.push(pubkey_index as usize);
             let pubkey = account.pubkey();
             let is_signer = (pubkey == self.signer || account.signer())
                 && !self.restricted_keys.is_restricted(pubkey);
             if is_signer && pubkey == self.signer {
                 uses_swig_signer = true;
             }
-            accounts[i].write(AccountMeta {
+            accounts.push(AccountMeta {
                 pubkey,
                 is_signer,
                 is_writable: account.writable(),
@@ -317,8 +322,8 @@ where
         Ok(InstructionHolder {
             program_id,
             cpi_accounts: infos,
-            accounts: unsafe { core::slice::from_raw_parts(accounts.as_ptr() as _, num_accounts) },
-            indexes: unsafe { core::slice::from_raw_parts(indexes.as_ptr() as _, num_accounts) },
+            accounts,
+            indexes,
             data,
             uses_swig_signer,
         })
-- 
2.43.0


From 561d4e6670085daf0e35dfbfb8eeff9cccd80e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 04/38] fix: refuse limited roles that assign or allocate the
 wallet address

---
 program/src/actions/sign_v2.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 55d02f2..8378439 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -538,6 +538,14 @@ pub fn sign_v2(
                     }
                 }
 
+                // The wallet PDA signs the CPIs, so they could assign or allocate it.
+                // It must still be a plain system account afterwards.
+                if ctx.accounts.swig_wallet_address.owner() != &SYSTEM_PROGRAM_ID
+                    || !ctx.accounts.swig_wallet_address.data_is_empty()
+                {
+                    return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                }
+
                 let swig_wallet_balance = ctx.accounts.swig_wallet_address.lamports();
                 let swig_wallet_rent_exempt_minimum = pinocchio::sysvars::rent::Rent::get()?
                     .minimum_balance(ctx.accounts.swig_wallet_address.data_len());
-- 
2.43.0


From bc0742bad41a8d38a039b2abdb5434658040512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 05/38] fix: read the account count of a program-exec approval
 from its account list

The number of accounts was taken from the first two bytes of the approving
instruction's data, which refused genuine approvals whose data starts with 0 or
1 and let account lists shorter than two be read out of bounds.
---
 state/src/authority/programexec/mod.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index 13cb511..2fd3009 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -293,14 +293,14 @@ pub fn program_exec_authenticate(
 
     // Get the target instruction
     let preceding_ix = unsafe { ixs.deserialize_instruction_unchecked(verify_ix_index) };
-    let num_accounts = u16::from_le_bytes(unsafe {
-        *(preceding_ix.get_instruction_data().as_ptr() as *const [u8; 2])
-    });
-    if num_accounts < 2 {
-        return Err(
-            SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData.into(),
-        );
-    }
+    // Both bound accounts must exist; the checked accessor reads the account
+    // count of the introspected instruction itself.
+    let account_0 = preceding_ix
+        .get_account_meta_at(0)
+        .map_err(|_| SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData)?;
+    let account_1 = preceding_ix
+        .get_account_meta_at(1)
+        .map_err(|_| SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData)?;
 
     // Verify the instruction is calling the expected program
     if !sol_assert_bytes_eq(preceding_ix.get_program_id(), expected_program_id, 32) {
@@ -325,12 +325,8 @@ pub fn program_exec_authenticate(
         );
     }
 
-    // Verify the first two accounts of the preceding instruction are config and
-    // wallet Get account meta at index 0 (should be config)
-    let account_0 = unsafe { preceding_ix.get_account_meta_at_unchecked(0) };
-    let account_1 = unsafe { preceding_ix.get_account_meta_at_unchecked(1) };
-
-    // Verify the accounts match the config and wallet keys
+    // Verify the first two accounts of the preceding instruction are the config
+    // and wallet accounts
     if !sol_assert_bytes_eq(account_0.key.as_ref(), config_account.key(), 32) {
         return Err(SwigAuthenticateError::PermissionDeniedProgramExecInvalidConfigAccount.into());
     }
-- 
2.43.0


From f9839554038bdee4e959f6db03d4711804a697ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 06/38] fix: create wallets only at their canonical addresses

Creation accepted any bump, so one identifier could be used for several wallets
and a wallet address could be chosen that closing, withdrawing and replacing
(which derive the canonical one) refuse afterwards.
---
 program/src/actions/create_v1.rs | 33 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/program/src/actions/create_v1.rs b/program/src/actions/create_v1.rs
index a7ebacf..686d283 100644
--- a/program/src/actions/create_v1.rs
+++ b/program/src/actions/create_v1.rs
@@ -9,14 +9,13 @@ use pinocchio::{
     ProgramResult,
 };
 use pinocchio_system::instructions::CreateAccount;
-use swig_assertions::{check_self_pda, check_system_owner, check_zero_data};
+use swig_assertions::{check_system_owner, check_zero_data, find_self_pda};
 use swig_state::{
     action::{all::All, manage_authority::ManageAuthority, ActionLoader, Actionable},
     authority::{authority_type_to_length, AuthorityType},
     role::Position,
     swig::{
-        swig_account_seeds_with_bump, swig_account_signer, swig_wallet_address_seeds_with_bump,
-        swig_wallet_address_signer, Swig, SwigBuilder,
+        swig_account_seeds, swig_account_signer, swig_wallet_address_seeds, Swig, SwigBuilder,
     },
     IntoBytes, Transmutable,
 };
@@ -150,11 +149,16 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
     check_zero_data(ctx.accounts.swig, SwigError::AccountNotEmptySwigAccount)?;
 
     let create_v1 = CreateV1::from_instruction_bytes(create)?;
-    let bump = check_self_pda(
-        &swig_account_seeds_with_bump(&create_v1.args.id, &[create_v1.args.bump]),
+    // Only the canonical bump: any other bump would allow further wallets for
+    // the same id.
+    let bump = find_self_pda(
+        &swig_account_seeds(&create_v1.args.id),
         ctx.accounts.swig.key(),
         SwigError::InvalidSeedSwigAccount,
     )?;
+    if bump != create_v1.args.bump {
+        return Err(SwigError::InvalidSeedSwigAccount.into());
+    }
 
     // Validate swig wallet address account
     check_system_owner(
@@ -166,24 +170,15 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
         SwigError::AccountNotEmptySwigAccount,
     )?;
 
-    let wallet_address_bump = check_self_pda(
-        &swig_wallet_address_seeds_with_bump(
-            ctx.accounts.swig.key().as_ref(),
-            &[create_v1.args.wallet_address_bump],
-        ),
-        ctx.accounts.swig_wallet_address.key(),
-        SwigError::InvalidSeedSwigAccount,
-    )?;
-
     // Validate swig wallet address PDA
-    let wallet_address_bump = check_self_pda(
-        &swig_wallet_address_seeds_with_bump(
-            ctx.accounts.swig.key().as_ref(),
-            &[create_v1.args.wallet_address_bump],
-        ),
+    let wallet_address_bump = find_self_pda(
+        &swig_wallet_address_seeds(ctx.accounts.swig.key().as_ref()),
         ctx.accounts.swig_wallet_address.key(),
         SwigError::InvalidSeedSwigAccount,
     )?;
+    if wallet_address_bump != create_v1.args.wallet_address_bump {
+        return Err(SwigError::InvalidSeedSwigAccount.into());
+    }
 
     let manage_authority_action = create_v1.get_action::<ManageAuthority>()?;
     let all_action = create_v1.get_action::<All>()?;
-- 
2.43.0


From 2e0e4a62149504b9ecd4303c0614c4c8ad5d2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 07/38] fix: create a wallet also when its address was funded
 beforehand

The code already subtracts lamports found at the configuration address, but
CreateAccount refuses an address that holds any, so that a transfer of one
lamport blocked the wallet for good.
---
 program/src/actions/create_v1.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/program/src/actions/create_v1.rs b/program/src/actions/create_v1.rs
index 686d283..22dbba6 100644
--- a/program/src/actions/create_v1.rs
+++ b/program/src/actions/create_v1.rs
@@ -8,7 +8,7 @@ use pinocchio::{
     sysvars::{rent::Rent, Sysvar},
     ProgramResult,
 };
-use pinocchio_system::instructions::CreateAccount;
+use pinocchio_system::instructions::{Allocate, Assign, Transfer};
 use swig_assertions::{check_system_owner, check_zero_data, find_self_pda};
 use swig_state::{
     action::{all::All, manage_authority::ManageAuthority, ActionLoader, Actionable},
@@ -208,16 +208,30 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
         lamports_needed - current_lamports
     };
 
-    CreateAccount {
-        from: ctx.accounts.payer,
-        to: ctx.accounts.swig,
-        lamports: lamports_to_transfer,
+    // Anyone can transfer SOL to this predictable PDA before creation, and
+    // `CreateAccount` rejects such a pre-funded destination. Top up, allocate,
+    // and assign separately so that pre-funding cannot block the wallet.
+    if lamports_to_transfer > 0 {
+        Transfer {
+            from: ctx.accounts.payer,
+            to: ctx.accounts.swig,
+            lamports: lamports_to_transfer,
+        }
+        .invoke()?;
+    }
+    let bump_seed = [swig.bump];
+    let swig_signer = swig_account_signer(&swig.id, &bump_seed);
+    let swig_signers = [swig_signer.as_slice().into()];
+    Allocate {
+        account: ctx.accounts.swig,
         space: account_size as u64,
+    }
+    .invoke_signed(&swig_signers)?;
+    Assign {
+        account: ctx.accounts.swig,
         owner: &crate::ID,
     }
-    .invoke_signed(&[swig_account_signer(&swig.id, &[swig.bump])
-        .as_slice()
-        .into()])?;
+    .invoke_signed(&swig_signers)?;
 
     // Transfer lamports to the swig_wallet_address via CPI to system program
     // This creates a system program owned account by transferring SOL to it
-- 
2.43.0


From dce9e917c4c374fe45a4199a43e4f616e478bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 08/38] fix: refuse a V1 sub-account toggle whose enabled byte
 is neither 0 nor 1

The byte was loaded as a bool and stored in the record, where any value but 0
and 1 is undefined behaviour.
---
 program/src/actions/toggle_sub_account_v1.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/program/src/actions/toggle_sub_account_v1.rs b/program/src/actions/toggle_sub_account_v1.rs
index 79c2d67..5ed6dca 100644
--- a/program/src/actions/toggle_sub_account_v1.rs
+++ b/program/src/actions/toggle_sub_account_v1.rs
@@ -102,6 +102,11 @@ impl<'a> ToggleSubAccountV1<'a> {
         // Split the data into args and the rest (authority payload)
         let (args_data, authority_payload) = data.split_at(ToggleSubAccountV1Args::LEN);
 
+        // `enabled` is loaded as a bool: any other byte is not a valid value.
+        if args_data[core::mem::offset_of!(ToggleSubAccountV1Args, enabled)] > 1 {
+            return Err(ProgramError::InvalidInstructionData);
+        }
+
         let args = unsafe { ToggleSubAccountV1Args::load_unchecked(args_data)? };
 
         Ok(Self {
-- 
2.43.0


From ecd391e0d7a67dde1998a18294e61f0e45f16b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 09/38] fix: refund only the freed rent when a permission
 update shrinks the account

All lamports above the new rent floor went to the payer, including SOL that a
legacy wallet holds at its configuration address or that was sent there.
---
 program/src/actions/update_authority_v1.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/program/src/actions/update_authority_v1.rs b/program/src/actions/update_authority_v1.rs
index 180210d..f7ca28b 100644
--- a/program/src/actions/update_authority_v1.rs
+++ b/program/src/actions/update_authority_v1.rs
@@ -923,10 +923,15 @@ pub fn update_authority_v1(
 
         ctx.accounts.swig.resize(aligned_size)?;
 
-        let cost = Rent::get()?.minimum_balance(aligned_size);
+        let rent = Rent::get()?;
+        let cost = rent.minimum_balance(aligned_size);
         let current_lamports = unsafe { *ctx.accounts.swig.borrow_lamports_unchecked() };
 
-        let additional_cost = current_lamports.saturating_sub(cost);
+        // Refund the rent that was freed, never other lamports held here.
+        let additional_cost = rent
+            .minimum_balance(account_len)
+            .saturating_sub(cost)
+            .min(current_lamports.saturating_sub(cost));
 
         if additional_cost > 0 {
             unsafe {
-- 
2.43.0


From 37b07122c190a00b5fa314abf948679da3fa7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 10/38] fix: create sub-accounts only at their canonical
 addresses

Any bump was accepted, so a role could re-point its V1 record to another
address, after which withdrawals (which derive the canonical one) no longer
reached the first, and numbered sub-accounts were not unique per number.
---
 program/src/actions/create_sub_account_v1.rs | 16 ++++++++-------
 program/src/actions/create_sub_account_v2.rs | 21 ++++++++++----------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/program/src/actions/create_sub_account_v1.rs b/program/src/actions/create_sub_account_v1.rs
index 16b6a51..ae74422 100644
--- a/program/src/actions/create_sub_account_v1.rs
+++ b/program/src/actions/create_sub_account_v1.rs
@@ -22,8 +22,8 @@ use swig_state::{
     authority::AuthorityType,
     role::RoleMut,
     swig::{
-        sub_account_seeds_with_bump, sub_account_signer, swig_account_seeds_with_bump,
-        swig_account_signer, Swig,
+        sub_account_seeds, sub_account_signer, swig_account_seeds_with_bump, swig_account_signer,
+        Swig,
     },
     Discriminator, IntoBytes, SwigAuthenticateError, Transmutable, TransmutableMut,
 };
@@ -203,14 +203,16 @@ pub fn create_sub_account_v1(
     // Derive the sub-account address using the authority index as seed (keeping PDA
     // for deterministic addressing)
     let role_id_bytes = create_sub_account.args.role_id.to_le_bytes();
-    let bump_byte = [create_sub_account.args.sub_account_bump];
-    let sub_account_seeds = sub_account_seeds_with_bump(&swig.id, &role_id_bytes, &bump_byte);
-    // Check that sub_account passed in matches derived address
-    let bump = check_self_pda(
-        &sub_account_seeds,
+    // Check that sub_account passed in matches the canonical derived address: a
+    // role has exactly one sub-account
+    let bump = find_self_pda(
+        &sub_account_seeds(&swig.id, &role_id_bytes),
         ctx.accounts.sub_account.key(),
         SwigError::InvalidSeedSwigAccount,
     )?;
+    if bump != create_sub_account.args.sub_account_bump {
+        return Err(SwigError::InvalidSeedSwigAccount.into());
+    }
 
     // Transfer lamports to the sub_account to make it system-owned and rent-exempt
     // This follows the same pattern as swig_wallet_address creation in create_v1.rs
diff --git a/program/src/actions/create_sub_account_v2.rs b/program/src/actions/create_sub_account_v2.rs
index 9149e70..a6137aa 100644
--- a/program/src/actions/create_sub_account_v2.rs
+++ b/program/src/actions/create_sub_account_v2.rs
@@ -22,8 +22,7 @@ use swig_state::{
     action::{sub_account_v2::SubAccountV2Create, Action, Permission},
     sub_account_v2::SubAccountV2,
     swig::{
-        sub_account_v2_asset_seeds_with_bump, sub_account_v2_state_seeds_with_bump,
-        sub_account_v2_state_signer, Swig,
+        sub_account_v2_asset_seeds, sub_account_v2_state_seeds, sub_account_v2_state_signer, Swig,
     },
     Discriminator, IntoBytes, Transmutable, TransmutableMut,
 };
@@ -191,22 +190,24 @@ pub fn create_sub_account_v2(
         (new_id, swig.id, already_granted)
     };
 
-    // Verify both PDAs match the provided bumps.
+    // Verify both canonical PDAs and their provided bumps.
     let id_le = new_id.to_le_bytes();
     let state_bump = [create.args.state_bump];
-    let asset_bump = [create.args.asset_bump];
-    let state_seeds = sub_account_v2_state_seeds_with_bump(&swig_id, &id_le, &state_bump);
-    check_self_pda(
-        &state_seeds,
+    let canonical_state_bump = find_self_pda(
+        &sub_account_v2_state_seeds(&swig_id, &id_le),
         ctx.accounts.sub_account_state.key(),
         SwigError::InvalidSeedSubAccountV2,
     )?;
-    let asset_seeds = sub_account_v2_asset_seeds_with_bump(&swig_id, &id_le, &asset_bump);
-    check_self_pda(
-        &asset_seeds,
+    let canonical_asset_bump = find_self_pda(
+        &sub_account_v2_asset_seeds(&swig_id, &id_le),
         ctx.accounts.sub_account.key(),
         SwigError::InvalidSeedSubAccountV2,
     )?;
+    if canonical_state_bump != create.args.state_bump
+        || canonical_asset_bump != create.args.asset_bump
+    {
+        return Err(SwigError::InvalidSeedSubAccountV2.into());
+    }
 
     // Initialize the program-owned state account. Anyone can transfer SOL to
     // this predictable PDA before creation, and `CreateAccount` rejects such a
-- 
2.43.0


From 032c315215630e30425ca9452b73b55261aba4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 11/38] fix: transfer assets only from migrated wallets

The check looked at one byte of the legacy reserved_lamports field, so a legacy
wallet could send its assets to an address its migration never uses.
---
 program/src/actions/transfer_assets_v1.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/program/src/actions/transfer_assets_v1.rs b/program/src/actions/transfer_assets_v1.rs
index b994e58..95e59bb 100644
--- a/program/src/actions/transfer_assets_v1.rs
+++ b/program/src/actions/transfer_assets_v1.rs
@@ -136,15 +136,12 @@ pub fn transfer_assets_v1(
     if swig_account_data[0] != Discriminator::SwigConfigAccount as u8 {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
+    // Ensure this is a migrated swig account (has wallet_bump)
+    crate::require_swig_v2(swig_account_data)?;
     let parts = Swig::split_parts_mut(swig_account_data)?;
     let swig = parts.state;
     let swig_roles = parts.roles;
 
-    // Ensure this is a migrated swig account (has wallet_bump)
-    if swig.wallet_bump == 0 {
-        return Err(SwigError::InvalidSwigCreateInstructionDataTooShort.into());
-    }
-
     // Verify swig wallet address derivation using PDA check
     check_self_pda(
         &swig_wallet_address_seeds_with_bump(ctx.accounts.swig.key().as_ref(), &[swig.wallet_bump]),
-- 
2.43.0


From 11e88f043d07af7aecaa8f8c04318ccf410e77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 12/38] fix: refuse migrating a wallet twice and to a
 non-canonical address

The guard required reserved_lamports to be zero and its own low byte non-zero at
once, so it never fired; a second migration reset the sub-account counter and
made new sub-accounts collide with existing ones.
---
 .../actions/migrate_to_wallet_address_v1.rs   | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/program/src/actions/migrate_to_wallet_address_v1.rs b/program/src/actions/migrate_to_wallet_address_v1.rs
index dcf39dc..8fd4596 100644
--- a/program/src/actions/migrate_to_wallet_address_v1.rs
+++ b/program/src/actions/migrate_to_wallet_address_v1.rs
@@ -12,10 +12,10 @@ use pinocchio::{
     sysvars::{clock::Clock, rent::Rent, Sysvar},
     ProgramResult,
 };
-use swig_assertions::{check_self_pda, check_system_owner, check_zero_data};
+use swig_assertions::{check_system_owner, check_zero_data, find_self_pda};
 use swig_state::{
     action::{all::All, manage_authority::ManageAuthority},
-    swig::{swig_wallet_address_seeds_with_bump, Swig},
+    swig::{swig_wallet_address_seeds, Swig},
     Discriminator, IntoBytes, SwigAuthenticateError, SwigStateError, Transmutable,
 };
 
@@ -157,13 +157,11 @@ pub fn migrate_to_wallet_address_v1(
             return Err(SwigError::InvalidSwigAccountDiscriminator.into());
         }
 
-        // Check if this account is already migrated (has wallet_bump field)
-        // We can detect this by checking if reserved_lamports field is 0 and if the
-        // 41st byte (wallet_bump position) is non-zero
+        // Check if this account is already migrated (has wallet_bump field).
+        // Migrating again would reset the sub-account counter.
         let old_swig = unsafe { OldSwig::load_unchecked(&swig_data[..OldSwig::LEN])? };
-        let potential_wallet_bump = swig_data[40]; // Position where wallet_bump would be
 
-        if old_swig.reserved_lamports == 0 && potential_wallet_bump != 0 {
+        if unsafe { crate::is_swig_v2(swig_data) } {
             msg!("Account appears to already be migrated");
             return Err(SwigError::StateError.into());
         }
@@ -218,15 +216,15 @@ pub fn migrate_to_wallet_address_v1(
         SwigError::AccountNotEmptySwigAccount,
     )?;
 
-    // Validate the wallet address PDA
-    let wallet_address_bump = check_self_pda(
-        &swig_wallet_address_seeds_with_bump(
-            ctx.accounts.swig.key().as_ref(),
-            &[migrate.args.wallet_address_bump],
-        ),
+    // Validate the wallet address PDA (canonical bump only)
+    let wallet_address_bump = find_self_pda(
+        &swig_wallet_address_seeds(ctx.accounts.swig.key().as_ref()),
         ctx.accounts.swig_wallet_address.key(),
         SwigError::InvalidSeedSwigAccount,
     )?;
+    if wallet_address_bump != migrate.args.wallet_address_bump {
+        return Err(SwigError::InvalidSeedSwigAccount.into());
+    }
 
     // Create the new Swig structure with wallet_bump
     let new_swig = Swig::new(old_swig_id, old_swig_bump, wallet_address_bump);
-- 
2.43.0


From 5ca54445b5b105a4a3245cd2823e0a2b54af6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 13/38] fix: look permissions up by record length in
 client-supplied lists

ActionLoader::find_action followed the boundary fields of the instruction data,
while the role is stored by record lengths, so a wallet could be created whose
first role cannot manage it, a boundary of zero never terminated, and the record
returned started at its header.
---
 state/src/action/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/state/src/action/mod.rs b/state/src/action/mod.rs
index d86f2e5..b03bf58 100644
--- a/state/src/action/mod.rs
+++ b/state/src/action/mod.rs
@@ -352,14 +352,22 @@ impl ActionLoader {
     ) -> Result<Option<&'a T>, ProgramError> {
         let mut cursor = 0;
 
+        // Records are walked by their lengths, as they are stored: boundaries in
+        // client-supplied bytes are not to be trusted.
         while cursor < bytes.len() {
-            let action = unsafe { Action::load_unchecked(&bytes[cursor..cursor + Action::LEN])? };
+            let data_start = cursor + Action::LEN;
+            let header = bytes
+                .get(cursor..data_start)
+                .ok_or(ProgramError::InvalidInstructionData)?;
+            let action = unsafe { Action::load_unchecked(header)? };
+            let data_end = data_start + action.length() as usize;
+            let data = bytes
+                .get(data_start..data_end)
+                .ok_or(ProgramError::InvalidInstructionData)?;
             if action.permission() == Ok(T::TYPE) {
-                return Ok(Some(unsafe {
-                    T::load_unchecked(&bytes[cursor..cursor + action.length() as usize])?
-                }));
+                return Ok(Some(unsafe { T::load_unchecked(data)? }));
             }
-            cursor = action.boundary() as usize;
+            cursor = data_end;
         }
         Ok(None)
     }
-- 
2.43.0


From 93b86467aa3555d407469ce0b3ecaffe58c68495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 14/38] fix: check recurring limit record lengths before
 reading their fields

A shorter record made the validation panic instead of refusing it.
---
 state/src/action/sol_recurring_limit.rs   | 9 ++++-----
 state/src/action/stake_recurring_limit.rs | 9 ++++-----
 state/src/action/token_recurring_limit.rs | 5 ++++-
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/state/src/action/sol_recurring_limit.rs b/state/src/action/sol_recurring_limit.rs
index 5ef62b3..a95a51f 100644
--- a/state/src/action/sol_recurring_limit.rs
+++ b/state/src/action/sol_recurring_limit.rs
@@ -77,15 +77,14 @@ impl<'a> Actionable<'a> for SolRecurringLimit {
     const REPEATABLE: bool = false;
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to recurring amount
         let current_amount = &data[24..32];
         let recurring_amount = &data[0..8];
         // last reset needs to be 0
         let last_reset = &data[16..24];
-        Ok(
-            current_amount == recurring_amount
-                && last_reset == &[0u8; 8]
-                && data.len() == Self::LEN,
-        )
+        Ok(current_amount == recurring_amount && last_reset == &[0u8; 8])
     }
 }
diff --git a/state/src/action/stake_recurring_limit.rs b/state/src/action/stake_recurring_limit.rs
index 055c6da..c0bc2c4 100644
--- a/state/src/action/stake_recurring_limit.rs
+++ b/state/src/action/stake_recurring_limit.rs
@@ -79,15 +79,14 @@ impl<'a> Actionable<'a> for StakeRecurringLimit {
     const REPEATABLE: bool = false;
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to recurring amount
         let current_amount = &data[24..32];
         let recurring_amount = &data[0..8];
         // last reset needs to be 0
         let last_reset = &data[16..24];
-        Ok(
-            current_amount == recurring_amount
-                && last_reset == &[0u8; 8]
-                && data.len() == Self::LEN,
-        )
+        Ok(current_amount == recurring_amount && last_reset == &[0u8; 8])
     }
 }
diff --git a/state/src/action/token_recurring_limit.rs b/state/src/action/token_recurring_limit.rs
index 14810c0..9d9ddf3 100644
--- a/state/src/action/token_recurring_limit.rs
+++ b/state/src/action/token_recurring_limit.rs
@@ -87,11 +87,14 @@ impl<'a> Actionable<'a> for TokenRecurringLimit {
     }
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to limit
         let current = &data[48..56];
         let limit = &data[40..48];
         // last reset needs to be 0
         let last_reset = &data[56..64];
-        Ok(current == limit && last_reset == &[0u8; 8] && data.len() == Self::LEN)
+        Ok(current == limit && last_reset == &[0u8; 8])
     }
 }
-- 
2.43.0


From 1ee4ac8c8b7df78480c4b3ea97f41532018872c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 15/38] fix: keep held permissions as they are when a role's
 list is extended or reduced

The rules for newly supplied records were applied to the records a role already
holds, so a role with a partly used recurring limit or an initialized
sub-account could neither be extended or reduced nor create a numbered
sub-account.
---
 program/src/actions/update_authority_v1.rs | 40 +++++++++++++++++++---
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/program/src/actions/update_authority_v1.rs b/program/src/actions/update_authority_v1.rs
index f7ca28b..ec8663a 100644
--- a/program/src/actions/update_authority_v1.rs
+++ b/program/src/actions/update_authority_v1.rs
@@ -289,6 +289,35 @@ fn perform_replace_all_operation(
     current_actions_size: usize,
     new_actions: &[u8],
     authority_to_update_id: u32,
+) -> Result<i64, ProgramError> {
+    write_actions(
+        swig_roles,
+        current_roles_len,
+        authority_offset,
+        actions_offset,
+        current_actions_size,
+        new_actions,
+        0,
+        authority_to_update_id,
+    )
+}
+
+/// Writes `new_actions` as the complete action list of an authority.
+///
+/// The first `kept_len` bytes are actions the role already holds. Those are
+/// kept as they are: the layout rules apply to newly supplied actions, while
+/// held ones may carry state such as a partly used recurring limit or an
+/// initialized sub-account.
+#[allow(clippy::too_many_arguments)]
+fn write_actions(
+    swig_roles: &mut [u8],
+    current_roles_len: usize,
+    authority_offset: usize,
+    actions_offset: usize,
+    current_actions_size: usize,
+    new_actions: &[u8],
+    kept_len: usize,
+    authority_to_update_id: u32,
 ) -> Result<i64, ProgramError> {
     // Reject duplicate V2 sub-account scoped actions on the resulting role.
     // ReplaceAll receives the role's full new action list, and AddActions routes
@@ -382,7 +411,7 @@ fn perform_replace_all_operation(
         let permission = action_header.permission()?;
         let action_data =
             &new_actions[action_cursor + Action::LEN..action_cursor + total_action_size];
-        if !ActionLoader::validate_layout(permission, action_data)? {
+        if action_cursor >= kept_len && !ActionLoader::validate_layout(permission, action_data)? {
             return Err(ProgramError::InvalidInstructionData);
         }
 
@@ -425,13 +454,14 @@ fn perform_add_actions_operation(
     combined_actions.extend_from_slice(new_actions);
 
     // Use replace_all logic with combined actions
-    perform_replace_all_operation(
+    write_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &combined_actions,
+        current_actions_size,
         authority_to_update_id,
     )
 }
@@ -599,13 +629,14 @@ fn perform_remove_by_type_operation(
     }
 
     // Use replace_all logic with filtered actions
-    perform_replace_all_operation(
+    write_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &filtered_actions,
+        filtered_actions.len(),
         authority_to_update_id,
     )
 }
@@ -657,13 +688,14 @@ fn perform_remove_by_index_operation(
     }
 
     // Use replace_all logic with filtered actions
-    perform_replace_all_operation(
+    write_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &filtered_actions,
+        filtered_actions.len(),
         authority_to_update_id,
     )
 }
-- 
2.43.0


From 93f934dba80b0282e686c243481df7006b25e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 16/38] fix: let a role with full permission withdraw also when
 it can manage authorities

ManageAuthority beside All restricted the role to its own sub-account.
---
 program/src/actions/withdraw_from_sub_account_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/actions/withdraw_from_sub_account_v1.rs b/program/src/actions/withdraw_from_sub_account_v1.rs
index 38dc055..859f97b 100644
--- a/program/src/actions/withdraw_from_sub_account_v1.rs
+++ b/program/src/actions/withdraw_from_sub_account_v1.rs
@@ -198,7 +198,7 @@ pub fn withdraw_from_sub_account_v1(
         // For All permission, allow withdrawal from any sub-account (no validation
         // needed) For ManageAuthority permission, restrict to sub-accounts
         // created by the withdrawing role
-        if manage_authority_action.is_some() {
+        if all_action.is_none() {
             let role_id_bytes = withdraw.args.role_id.to_le_bytes();
             let sub_account_seeds = swig_state::swig::sub_account_seeds(&swig.id, &role_id_bytes);
             let (expected_sub_account, _expected_bump) =
-- 
2.43.0


From 9a724168d80d8632387f14b3d08d31c8b3504782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 17/38] fix: count held permissions without applying the rules
 for new ones

Extending or reducing a role's list still checked the records the role already
holds while counting them.
---
 program/src/actions/update_authority_v1.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/program/src/actions/update_authority_v1.rs b/program/src/actions/update_authority_v1.rs
index ec8663a..0da0d99 100644
--- a/program/src/actions/update_authority_v1.rs
+++ b/program/src/actions/update_authority_v1.rs
@@ -35,15 +35,17 @@ use crate::{
 ///
 /// # Arguments
 /// * `actions_data` - Raw bytes containing action data
+/// * `kept_len` - Length of the leading actions the role already holds
 ///
 /// # Returns
 /// * `Result<u8, ProgramError>` - The number of actions found, or error if
 ///   invalid data
-fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
+fn calculate_num_actions(actions_data: &[u8], kept_len: usize) -> Result<u8, ProgramError> {
     let mut cursor = 0;
     let mut count = 0u8;
 
     while cursor < actions_data.len() {
+        let supplied = cursor >= kept_len;
         if cursor + Action::LEN > actions_data.len() {
             return Err(ProgramError::InvalidInstructionData);
         }
@@ -58,7 +60,7 @@ fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
         }
 
         let action_data = &actions_data[cursor..cursor + action_len];
-        if !ActionLoader::validate_layout(action_header.permission()?, action_data)? {
+        if supplied && !ActionLoader::validate_layout(action_header.permission()?, action_data)? {
             return Err(ProgramError::InvalidInstructionData);
         }
 
@@ -369,7 +371,7 @@ fn write_actions(
             // Update the position for the role we're updating
             if position.id() == authority_to_update_id {
                 position.boundary = (position.boundary() as i64 + size_diff) as u32;
-                position.num_actions = calculate_num_actions(new_actions)? as u16;
+                position.num_actions = calculate_num_actions(new_actions, kept_len)? as u16;
             }
 
             cursor = position.boundary() as usize;
@@ -381,7 +383,7 @@ fn write_actions(
                 &mut swig_roles[authority_offset..authority_offset + Position::LEN],
             )?
         };
-        position.num_actions = calculate_num_actions(new_actions)? as u16;
+        position.num_actions = calculate_num_actions(new_actions, kept_len)? as u16;
     }
 
     let final_roles_len = (current_roles_len as i64 + size_diff) as usize;
-- 
2.43.0


From 9b4fca7a488c0fcf8ab535f047e4de162efa9942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 18/38] fix: set the rent claimer of a wallet that has not been
 migrated

The lamport address was derived from a bump that legacy layouts do not have.
---
 program/src/actions/set_rent_claimer_v1.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/program/src/actions/set_rent_claimer_v1.rs b/program/src/actions/set_rent_claimer_v1.rs
index e04f2df..15f8ffb 100644
--- a/program/src/actions/set_rent_claimer_v1.rs
+++ b/program/src/actions/set_rent_claimer_v1.rs
@@ -9,7 +9,7 @@ use pinocchio_system::instructions::Transfer;
 use swig_assertions::{check_bytes_match, check_self_owned};
 use swig_state::{
     action::{all::All, close_swig_authority::CloseSwigAuthority},
-    swig::{swig_wallet_address_seeds_with_bump, Swig},
+    swig::{swig_wallet_address_seeds, Swig},
     tail::rent_claimer,
     Discriminator, IntoBytes, SwigAuthenticateError, Transmutable,
 };
@@ -102,13 +102,13 @@ pub fn set_rent_claimer_v1(
 
     {
         let parts = Swig::split_parts_mut(swig_account_data)?;
-        let swig = parts.state;
 
-        let wallet_bump = [swig.wallet_bump];
-        let wallet_address = pinocchio::pubkey::create_program_address(
-            &swig_wallet_address_seeds_with_bump(ctx.accounts.swig.key().as_ref(), &wallet_bump),
+        // Derived rather than read from the header: a wallet that has not been
+        // migrated has no stored bump.
+        let (wallet_address, _) = pinocchio::pubkey::find_program_address(
+            &swig_wallet_address_seeds(ctx.accounts.swig.key().as_ref()),
             &crate::ID,
-        )?;
+        );
         if set_ix.args.rent_claimer == wallet_address {
             return Err(SwigError::InvalidRentClaimerValue.into());
         }
-- 
2.43.0


From da5ef9d62e52d17941f60c872bae2f94891fdda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 19/38] fix: skip strings nested in WebAuthn client data when
 tracking depth

---
 state/src/authority/secp256r1.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 2b30522..c7dbfd5 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -953,6 +953,16 @@ fn extract_top_level_string_field<'a>(
             continue;
         }
 
+        // Braces inside nested strings must not change the depth.
+        if depth > 1 && byte == b'"' {
+            cursor += 1;
+            while cursor < client_data_json.len() && client_data_json[cursor] != b'"' {
+                cursor += if client_data_json[cursor] == b'\\' { 2 } else { 1 };
+            }
+            cursor += 1;
+            continue;
+        }
+
         if depth == 1 && byte == b'"' {
             let key_start = cursor + 1;
             let mut key_end = key_start;
-- 
2.43.0


From 05490a836107f8ee362de7b194010e025eb96e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 20/38] fix: transfer tokens before lamports so that both can
 be moved at once

---
 program/src/actions/transfer_assets_v1.rs | 36 ++++++++++++-----------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/program/src/actions/transfer_assets_v1.rs b/program/src/actions/transfer_assets_v1.rs
index 95e59bb..10d976d 100644
--- a/program/src/actions/transfer_assets_v1.rs
+++ b/program/src/actions/transfer_assets_v1.rs
@@ -193,23 +193,6 @@ pub fn transfer_assets_v1(
     let swig_id = swig.id;
     let swig_signer = swig_account_signer(&swig_id, &bump);
 
-    // Transfer SOL from swig to swig wallet address
-    let swig_lamports = ctx.accounts.swig.lamports();
-    let rent = pinocchio::sysvars::rent::Rent::get()?;
-    let swig_data_len = ctx.accounts.swig.data_len();
-    let min_rent = rent.minimum_balance(swig_data_len);
-
-    if swig_lamports > min_rent {
-        let transfer_amount = swig_lamports - min_rent;
-        // Transfer SOL by directly manipulating lamports
-        unsafe {
-            *ctx.accounts.swig.borrow_mut_lamports_unchecked() -= transfer_amount;
-            *ctx.accounts
-                .swig_wallet_address
-                .borrow_mut_lamports_unchecked() += transfer_amount;
-        }
-    }
-
     // Transfer SPL tokens
     // We need to iterate through the remaining accounts to find token accounts
     let base_account_count = 4; // swig, swig_wallet_address, payer
@@ -295,5 +278,24 @@ pub fn transfer_assets_v1(
         }
     }
 
+    // Transfer SOL from swig to swig wallet address. After the token transfers:
+    // a CPI that includes only one of the two accounts would find the
+    // instruction's lamports unbalanced.
+    let swig_lamports = ctx.accounts.swig.lamports();
+    let rent = pinocchio::sysvars::rent::Rent::get()?;
+    let swig_data_len = ctx.accounts.swig.data_len();
+    let min_rent = rent.minimum_balance(swig_data_len);
+
+    if swig_lamports > min_rent {
+        let transfer_amount = swig_lamports - min_rent;
+        // Transfer SOL by directly manipulating lamports
+        unsafe {
+            *ctx.accounts.swig.borrow_mut_lamports_unchecked() -= transfer_amount;
+            *ctx.accounts
+                .swig_wallet_address
+                .borrow_mut_lamports_unchecked() += transfer_amount;
+        }
+    }
+
     Ok(())
 }
-- 
2.43.0


From 4e2ab36a36f2f184a0901700318b77d3713861be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:39 +0000
Subject: [PATCH 21/38] fix: let full permission withdraw from the sub-account
 of any role

The search for the role whose sub-account is being emptied stopped at
role 10, so funds of later roles' sub-accounts could not be withdrawn by
a role with full (or, for its own, management) permission.
---
 program/src/actions/withdraw_from_sub_account_v1.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/program/src/actions/withdraw_from_sub_account_v1.rs b/program/src/actions/withdraw_from_sub_account_v1.rs
index 859f97b..b4ca9ce 100644
--- a/program/src/actions/withdraw_from_sub_account_v1.rs
+++ b/program/src/actions/withdraw_from_sub_account_v1.rs
@@ -229,8 +229,8 @@ pub fn withdraw_from_sub_account_v1(
         let mut found_role_id = None;
         let mut found_bump = None;
 
-        // Try role IDs from 0 to some reasonable maximum (let's try up to 10)
-        for potential_role_id in 0u32..=10u32 {
+        // Try every role ID that was ever assigned in this wallet
+        for potential_role_id in 0..swig.role_counter {
             let role_id_bytes = potential_role_id.to_le_bytes();
             let sub_account_seeds = swig_state::swig::sub_account_seeds(&swig.id, &role_id_bytes);
             let (derived_address, bump) =
-- 
2.43.0


From 3435ba053a4369e021fef87e519a05e2cef671f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 22/38] fix: keep every privilege an account needs when
 compacting instructions

---
 instructions/src/compact_instructions.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/instructions/src/compact_instructions.rs b/instructions/src/compact_instructions.rs
index 1443272..e79d993 100644
--- a/instructions/src/compact_instructions.rs
+++ b/instructions/src/compact_instructions.rs
@@ -52,6 +52,9 @@ mod inner {
                 }
                 let account_index = hashmap.get(&ix_account.pubkey);
                 if let Some(index) = account_index {
+                    // An account is listed once, with every privilege it is used with.
+                    accounts[*index].is_signer |= ix_account.is_signer;
+                    accounts[*index].is_writable |= ix_account.is_writable;
                     accts.push(*index as u8);
                 } else {
                     let idx = accounts.len();
@@ -115,6 +118,9 @@ mod inner {
                 }
                 let account_index = hashmap.get(&ix_account.pubkey);
                 if let Some(index) = account_index {
+                    // An account is listed once, with every privilege it is used with.
+                    accounts[*index].is_signer |= ix_account.is_signer;
+                    accounts[*index].is_writable |= ix_account.is_writable;
                     accts.push(*index as u8);
                 } else {
                     let idx = accounts.len();
-- 
2.43.0


From e1a6f059a6c080d3d85e0705e478b3d831b0d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 23/38] fix: leave the signer requirement of accounts the
 caller listed to the caller

Compacting an instruction the wallet signs must not ask the wallet itself to sign the outer transaction.
---
 instructions/src/compact_instructions.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/instructions/src/compact_instructions.rs b/instructions/src/compact_instructions.rs
index e79d993..56bfb4a 100644
--- a/instructions/src/compact_instructions.rs
+++ b/instructions/src/compact_instructions.rs
@@ -37,6 +37,7 @@ mod inner {
         inner_instructions: Vec<Instruction>,
     ) -> (Vec<AccountMeta>, CompactInstructions) {
         let mut compact_ix = Vec::with_capacity(inner_instructions.len());
+        let listed = accounts.len();
         let mut hashmap = accounts
             .iter()
             .enumerate()
@@ -53,7 +54,9 @@ mod inner {
                 let account_index = hashmap.get(&ix_account.pubkey);
                 if let Some(index) = account_index {
                     // An account is listed once, with every privilege it is used with.
-                    accounts[*index].is_signer |= ix_account.is_signer;
+                    // The caller decides which of its own accounts sign: the wallet does
+                    // not, it signs inside the program.
+                    accounts[*index].is_signer |= ix_account.is_signer && *index >= listed;
                     accounts[*index].is_writable |= ix_account.is_writable;
                     accts.push(*index as u8);
                 } else {
@@ -100,6 +103,7 @@ mod inner {
         inner_instructions: Vec<Instruction>,
     ) -> (Vec<AccountMeta>, CompactInstructions) {
         let mut compact_ix = Vec::with_capacity(inner_instructions.len());
+        let listed = accounts.len();
         let mut hashmap = accounts
             .iter()
             .enumerate()
@@ -119,7 +123,9 @@ mod inner {
                 let account_index = hashmap.get(&ix_account.pubkey);
                 if let Some(index) = account_index {
                     // An account is listed once, with every privilege it is used with.
-                    accounts[*index].is_signer |= ix_account.is_signer;
+                    // The caller decides which of its own accounts sign: the wallet does
+                    // not, it signs inside the program.
+                    accounts[*index].is_signer |= ix_account.is_signer && *index >= listed;
                     accounts[*index].is_writable |= ix_account.is_writable;
                     accts.push(*index as u8);
                 } else {
-- 
2.43.0


From 0616915515857cd9634f2f6a82fb1c07c8af9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 24/38] fix: pad the secp256r1 proof of sub-account and
 transfer builders to the length the program requires

---
 interface/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 979ee92..831145c 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2023,6 +2023,7 @@ impl CreateSubAccountInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -2450,6 +2451,7 @@ impl WithdrawFromSubAccountInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(3); // this is the index of the instruction sysvar (account 3)
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -2783,6 +2785,7 @@ impl SubAccountSignInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -3034,6 +3037,7 @@ impl ToggleSubAccountInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -3274,6 +3278,7 @@ impl TransferAssetsV1Instruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         // Create the main instruction
         let main_ix = Instruction {
-- 
2.43.0


From 5178d3f92b96135651c70e1eb3e6a78f7140faaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 25/38] fix: give client withdrawals from sub-accounts by
 program-exec roles the account order the program requires

---
 interface/src/lib.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 831145c..f5ee6c0 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2473,17 +2473,16 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
 
-        // Add instructions sysvar at a stable index
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
+        let instruction_sysvar_index = 3; // the program expects the authority here
 
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
@@ -2517,20 +2516,19 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
+            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(sub_account_token, false),
             AccountMeta::new(swig_token, false),
-            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(token_program, false),
         ];
 
-        // Add instructions sysvar at a stable index
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
+        let instruction_sysvar_index = 3; // the program expects the authority here
 
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
@@ -2562,16 +2560,16 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
 
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
+        let instruction_sysvar_index = 3; // the program expects the authority here
 
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
@@ -2605,19 +2603,19 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
+            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(sub_account_token, false),
             AccountMeta::new(swig_token, false),
-            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(token_program, false),
         ];
 
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
+        let instruction_sysvar_index = 3; // the program expects the authority here
 
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
-- 
2.43.0


From 0afc9b8091f0862751a298ad5df76c2f0c00e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 26/38] fix: give client sub-account signing by secp256r1 and
 program-exec roles the accounts the program requires

---
 interface/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index f5ee6c0..6c8e7d5 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2729,7 +2729,7 @@ impl SubAccountSignInstruction {
         F: FnMut(&[u8]) -> [u8; 64],
     {
         let accounts = vec![
-            AccountMeta::new_readonly(swig_account, false),
+            AccountMeta::new(swig_account, false),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
@@ -2782,7 +2782,7 @@ impl SubAccountSignInstruction {
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
-        authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.push(3); // this is the index of the instruction sysvar
         authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
@@ -2806,9 +2806,9 @@ impl SubAccountSignInstruction {
 
         let mut accounts = vec![
             AccountMeta::new_readonly(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
+            AccountMeta::new_readonly(payer, true),
         ];
 
         // Add instructions sysvar at a stable index
@@ -2849,9 +2849,9 @@ impl SubAccountSignInstruction {
 
         let mut accounts = vec![
             AccountMeta::new_readonly(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
+            AccountMeta::new_readonly(payer, true),
         ];
 
         let instruction_sysvar_index = accounts.len() as u8;
-- 
2.43.0


From bea5ff651f51e5f8e18c7b7a3948f3a4900cc3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 27/38] fix: give the secp256k1 builders of sub-account and
 transfer instructions the counter the program requires

---
 interface/src/lib.rs        | 26 +++++++++++++++++++-------
 rust-sdk/src/client_role.rs | 10 ++++++++++
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 6c8e7d5..49ee21a 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -1910,6 +1910,7 @@ impl CreateSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         role_id: u32,
         sub_account_bump: u8,
@@ -1941,12 +1942,13 @@ impl CreateSubAccountInstruction {
 
         // Sign the payload
         let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, args_bytes, &account_payload_bytes, &[]);
+            prepare_secp256k1_payload(current_slot, counter, args_bytes, &account_payload_bytes, &[]);
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2150,6 +2152,7 @@ impl WithdrawFromSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         swig_wallet_address: Pubkey,
         role_id: u32,
@@ -2184,12 +2187,13 @@ impl WithdrawFromSubAccountInstruction {
 
         // Sign the payload
         let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, args_bytes, &account_payload_bytes, &[]);
+            prepare_secp256k1_payload(current_slot, counter, args_bytes, &account_payload_bytes, &[]);
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2240,6 +2244,7 @@ impl WithdrawFromSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         swig_wallet_address: Pubkey,
         sub_account_token: Pubkey,
@@ -2280,12 +2285,13 @@ impl WithdrawFromSubAccountInstruction {
 
         // Sign the payload
         let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, args_bytes, &account_payload_bytes, &[]);
+            prepare_secp256k1_payload(current_slot, counter, args_bytes, &account_payload_bytes, &[]);
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2670,6 +2676,7 @@ impl SubAccountSignInstruction {
         sub_account: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         role_id: u32,
         instructions: Vec<Instruction>,
     ) -> anyhow::Result<Instruction>
@@ -2677,7 +2684,7 @@ impl SubAccountSignInstruction {
         F: FnMut(&[u8]) -> [u8; 65],
     {
         let accounts = vec![
-            AccountMeta::new_readonly(swig_account, false),
+            AccountMeta::new(swig_account, false),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
@@ -2700,12 +2707,13 @@ impl SubAccountSignInstruction {
 
         // Sign the payload
         let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, &ix_bytes, &account_payload_bytes, &[]);
+            prepare_secp256k1_payload(current_slot, counter, &ix_bytes, &account_payload_bytes, &[]);
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2914,6 +2922,7 @@ impl ToggleSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         role_id: u32,
         auth_role_id: u32,
@@ -2948,7 +2957,7 @@ impl ToggleSubAccountInstruction {
         // Sign the payload
         let nonced_payload = prepare_secp256k1_payload(
             current_slot,
-            0u32,
+            counter,
             args_bytes,
             &account_payload_bytes,
             prefix,
@@ -2958,6 +2967,7 @@ impl ToggleSubAccountInstruction {
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -3160,6 +3170,7 @@ impl TransferAssetsV1Instruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         role_id: u32,
     ) -> anyhow::Result<Instruction>
     where
@@ -3191,7 +3202,7 @@ impl TransferAssetsV1Instruction {
         // Sign the payload
         let nonced_payload = prepare_secp256k1_payload(
             current_slot,
-            0u32,
+            counter,
             args_bytes,
             &account_payload_bytes,
             prefix,
@@ -3201,6 +3212,7 @@ impl TransferAssetsV1Instruction {
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index b457c73..9340fbc 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -819,6 +819,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         Ok(vec![
             CreateSubAccountInstruction::new_with_secp256k1_authority(
@@ -826,6 +827,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 role_id,
                 sub_account_bump,
@@ -842,6 +844,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         Ok(vec![
             SubAccountSignInstruction::new_with_secp256k1_authority(
@@ -849,6 +852,7 @@ impl ClientRole for Secp256k1ClientRole {
                 sub_account,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 role_id,
                 instructions,
             )?,
@@ -865,6 +869,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -878,6 +883,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 swig_wallet_address,
                 role_id,
@@ -899,6 +905,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -912,6 +919,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 swig_wallet_address,
                 sub_account_token,
@@ -934,6 +942,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         Ok(vec![
             ToggleSubAccountInstruction::new_with_secp256k1_authority(
@@ -941,6 +950,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 role_id,
                 auth_role_id,
-- 
2.43.0


From 8f77269d80fccfca14f484960e4f671af0c6904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 28/38] fix: let SDK ed25519 sessions act on sub-accounts with
 the session key

---
 rust-sdk/src/client_role.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index 9340fbc..e3aaf0a 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -1844,7 +1844,7 @@ impl ClientRole for Ed25519SessionClientRole {
         sub_account_bump: u8,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
         Ok(vec![
             CreateSubAccountInstruction::new_with_ed25519_authority(
                 swig_account,
@@ -1865,7 +1865,7 @@ impl ClientRole for Ed25519SessionClientRole {
         instructions: Vec<Instruction>,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
         Ok(vec![SubAccountSignInstruction::new_with_ed25519_authority(
             swig_account,
             sub_account,
@@ -1884,7 +1884,7 @@ impl ClientRole for Ed25519SessionClientRole {
         amount: u64,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -1917,7 +1917,7 @@ impl ClientRole for Ed25519SessionClientRole {
         amount: u64,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -1951,7 +1951,7 @@ impl ClientRole for Ed25519SessionClientRole {
         enabled: bool,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
         Ok(vec![
             ToggleSubAccountInstruction::new_with_ed25519_authority(
                 swig_account,
-- 
2.43.0


From 1e261e2fe9c528a2f874ddc052c75b5e0ce70c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 29/38] fix: let SDK secp256k1 roles add authorities of every
 type

---
 rust-sdk/src/client_role.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index e3aaf0a..06b8506 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -717,6 +717,12 @@ impl ClientRole for Secp256k1ClientRole {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
         let new_odometer = self.odometer.wrapping_add(1);
 
+        // An uncompressed Secp256k1 key may carry its 0x04 prefix
+        let new_authority = match new_authority_type {
+            AuthorityType::Secp256k1 if new_authority.len() == 65 => &new_authority[1..],
+            _ => new_authority,
+        };
+
         let instructions = AddAuthorityInstruction::new_with_secp256k1_authority(
             swig_account,
             payer,
@@ -726,7 +732,7 @@ impl ClientRole for Secp256k1ClientRole {
             role_id,
             AuthorityConfig {
                 authority_type: new_authority_type,
-                authority: &new_authority[1..],
+                authority: new_authority,
             },
             actions,
         )?;
-- 
2.43.0


From 18d73f21ec00008e5746a2c02cd6083330c20c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:53 +0000
Subject: [PATCH 30/38] fix: let SDK program-exec roles sign the instructions
 they were given

---
 rust-sdk/src/client_role.rs | 52 ++++++++++++-------------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index 06b8506..164af99 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -3560,45 +3560,25 @@ where
         _current_slot: Option<u64>,
         transaction_signers: &[Pubkey],
     ) -> Result<Vec<Instruction>, SwigError> {
-        // Build the inner instruction using compact_instructions
-        let base_accounts = vec![
-            solana_program::instruction::AccountMeta::new(swig_account, false),
-            solana_program::instruction::AccountMeta::new(swig_wallet_address, false),
-        ];
-
-        // Add transaction signers as readonly signers
-        let mut accounts_with_signers = base_accounts;
-        for signer in transaction_signers {
-            accounts_with_signers.push(solana_program::instruction::AccountMeta::new_readonly(
-                *signer, true,
-            ));
-        }
-
-        let (_, compact_ixs) =
-            swig_interface::compact_instructions(swig_account, accounts_with_signers, instructions);
-
-        let inner_instruction = solana_program::instruction::Instruction {
-            program_id: swig_interface::program_id(),
-            accounts: vec![],
-            data: compact_ixs.into_bytes(),
-        };
-
-        // Get the preceding instruction from the function
-        let preceding_instruction = (self.preceding_instruction_fn)();
-
         // Determine payer from transaction_signers (first signer is typically the
         // payer)
         let payer = transaction_signers.first().copied().unwrap_or(swig_account);
 
-        // Use SignV2 with ProgramExec
-        SignV2Instruction::new_program_exec(
-            swig_account,
-            swig_wallet_address,
-            payer,
-            preceding_instruction,
-            inner_instruction,
-            role_id,
-        )
-        .map_err(|e| SwigError::InterfaceError(e.to_string()))
+        // Each SignV2 must directly follow the instruction that authenticates it
+        let mut signed_instructions = Vec::new();
+        for instruction in instructions {
+            signed_instructions.extend(
+                SignV2Instruction::new_program_exec(
+                    swig_account,
+                    swig_wallet_address,
+                    payer,
+                    (self.preceding_instruction_fn)(),
+                    instruction,
+                    role_id,
+                )
+                .map_err(|e| SwigError::InterfaceError(e.to_string()))?,
+            );
+        }
+        Ok(signed_instructions)
     }
 }
-- 
2.43.0


From c05381990e2b6d51b33a236cfe2cf297d09306db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:53 +0000
Subject: [PATCH 31/38] fix: sign several instructions by SDK secp roles with
 consecutive counters

---
 rust-sdk/src/client_role.rs | 8 ++++++--
 rust-sdk/src/wallet.rs      | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index 164af99..4d1c6ef 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -1191,9 +1191,11 @@ impl ClientRole for Secp256k1ClientRole {
     ) -> Result<Vec<Instruction>, SwigError> {
         let mut signed_instructions = Vec::new();
         let current_slot = current_slot.ok_or(SwigError::SlotRequired)?;
-        let new_odometer = self.odometer.wrapping_add(1);
+        let mut new_odometer = self.odometer;
 
         for instruction in instructions {
+            // Every signed instruction consumes one counter value
+            new_odometer = new_odometer.wrapping_add(1);
             let swig_signed_instruction = SignV2Instruction::new_secp256k1_with_signers(
                 swig_account,
                 swig_wallet_address,
@@ -1713,9 +1715,11 @@ impl ClientRole for Secp256r1ClientRole {
     ) -> Result<Vec<Instruction>, SwigError> {
         let mut signed_instructions = Vec::new();
         let current_slot = current_slot.ok_or(SwigError::SlotRequired)?;
-        let new_odometer = self.odometer.wrapping_add(1);
+        let mut new_odometer = self.odometer;
 
         for instruction in instructions {
+            // Every signed instruction consumes one counter value
+            new_odometer = new_odometer.wrapping_add(1);
             let swig_signed_instructions = SignV2Instruction::new_secp256r1_with_signers(
                 swig_account,
                 swig_wallet_address,
diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index a3b610b..d354451 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -313,6 +313,7 @@ impl<'c> SwigWallet<'c> {
         inner_instructions: Vec<Instruction>,
         alt: Option<&[AddressLookupTableAccount]>,
     ) -> Result<Signature, SwigError> {
+        let signed_count = inner_instructions.len();
         let sign_ix = self
             .instruction_builder
             .sign_v2_instruction(inner_instructions, Some(self.get_current_slot()?))?;
@@ -331,7 +332,9 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
+            for _ in 0..signed_count {
+                self.instruction_builder.increment_odometer()?;
+            }
         }
         tx_result
     }
-- 
2.43.0


From 9ed1de239e9de76ac337024f6cc5a089a976ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 32/38] fix: let SDK program-exec roles sign with sub-accounts

---
 rust-sdk/src/client_role.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index 4d1c6ef..ec8c09d 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -3388,14 +3388,13 @@ where
         instructions: Vec<Instruction>,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        // Note: SubAccountSign requires a payer parameter but the trait doesn't provide
-        // it We'll use the swig_account as a placeholder since the actual payer
-        // needs to be determined by the caller
-        let payer = swig_account; // Caller should ensure correct payer is set
+        // SubAccountSign takes no fee payer, so the swig account fills its place; it
+        // cannot sign
+        let payer = swig_account;
 
         let preceding_instruction = (self.preceding_instruction_fn)();
 
-        SubAccountSignInstruction::new_with_program_exec(
+        let mut signed_instructions = SubAccountSignInstruction::new_with_program_exec(
             swig_account,
             sub_account,
             payer,
@@ -3403,7 +3402,16 @@ where
             role_id,
             instructions,
         )
-        .map_err(|e| SwigError::InterfaceError(e.to_string()))
+        .map_err(|e| SwigError::InterfaceError(e.to_string()))?;
+        for meta in signed_instructions
+            .iter_mut()
+            .flat_map(|instruction| instruction.accounts.iter_mut())
+        {
+            if meta.pubkey == swig_account {
+                meta.is_signer = false;
+            }
+        }
+        Ok(signed_instructions)
     }
 
     fn withdraw_token_from_sub_account_instruction(
-- 
2.43.0


From d75d68ddc30195d8d8685a822e27b0eee000753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 33/38] fix: report every program scope an SDK role holds

---
 rust-sdk/src/types.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rust-sdk/src/types.rs b/rust-sdk/src/types.rs
index 2b891ae..d23dfed 100644
--- a/rust-sdk/src/types.rs
+++ b/rust-sdk/src/types.rs
@@ -561,11 +561,11 @@ impl Permission {
             });
         }
 
-        // Check for ProgramScope permission
-        if let Some(action) =
-            swig_state::role::Role::get_action::<ProgramScope>(role, &spl_token::ID.to_bytes())
-                .map_err(|_| SwigError::InvalidSwigData)?
-        {
+        // Check for ProgramScope permissions
+        let program_scopes = role
+            .get_all_actions_of_type::<ProgramScope>()
+            .map_err(|_| SwigError::InvalidSwigData)?;
+        for action in program_scopes {
             permissions.push(Permission::ProgramScope {
                 program_id: Pubkey::new_from_array(action.program_id),
                 target_account: Pubkey::new_from_array(action.target_account),
-- 
2.43.0


From 3bd844a543f2692705de4aeb118603b5b0283146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 34/38] fix: sign every SDK wallet operation with the
 authority's keypair

---
 rust-sdk/src/wallet.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index d354451..5dc59ee 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -241,10 +241,7 @@ impl<'c> SwigWallet<'c> {
             self.get_current_blockhash()?,
         )?;
 
-        let tx = VersionedTransaction::try_new(
-            VersionedMessage::V0(msg),
-            &[self.fee_payer.insecure_clone()],
-        )?;
+        let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &self.get_keypairs()?)?;
 
         self.send_and_confirm_transaction(tx)
     }
@@ -281,10 +278,7 @@ impl<'c> SwigWallet<'c> {
                 self.get_current_blockhash()?,
             )?;
 
-            let tx = VersionedTransaction::try_new(
-                VersionedMessage::V0(msg),
-                &[self.fee_payer.insecure_clone()],
-            )?;
+            let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &self.get_keypairs()?)?;
 
             let tx_result = self.send_and_confirm_transaction(tx);
             if tx_result.is_ok() {
@@ -1467,10 +1461,7 @@ impl<'c> SwigWallet<'c> {
             self.get_current_blockhash()?,
         )?;
 
-        let tx = VersionedTransaction::try_new(
-            VersionedMessage::V0(msg),
-            &[&self.fee_payer.insecure_clone()],
-        )?;
+        let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &self.get_keypairs()?)?;
 
         self.send_and_confirm_transaction(tx)?;
         Ok(())
@@ -1498,10 +1489,7 @@ impl<'c> SwigWallet<'c> {
             &[],
             self.get_current_blockhash()?,
         )?;
-        let tx = VersionedTransaction::try_new(
-            VersionedMessage::V0(msg),
-            &[self.fee_payer.insecure_clone()],
-        )?;
+        let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &self.get_keypairs()?)?;
 
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
-- 
2.43.0


From 75ce372793d067d95df87dc8283569b26787585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 35/38] fix: take the SDK wallet's counter from the chain after
 every operation

---
 rust-sdk/src/instruction_builder.rs |  6 ++++++
 rust-sdk/src/wallet.rs              | 33 +++++++++++------------------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/rust-sdk/src/instruction_builder.rs b/rust-sdk/src/instruction_builder.rs
index 8004603..1735713 100644
--- a/rust-sdk/src/instruction_builder.rs
+++ b/rust-sdk/src/instruction_builder.rs
@@ -699,4 +699,10 @@ impl SwigInstructionBuilder {
     pub fn increment_odometer(&mut self) -> Result<(), SwigError> {
         self.client_role.increment_odometer()
     }
+
+    /// Sets the odometer for the current authority if it is Secp based
+    /// authority
+    pub fn update_odometer(&mut self, odometer: u32) -> Result<(), SwigError> {
+        self.client_role.update_odometer(odometer)
+    }
 }
diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 5dc59ee..6f6076b 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -243,7 +243,11 @@ impl<'c> SwigWallet<'c> {
 
         let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &self.get_keypairs()?)?;
 
-        self.send_and_confirm_transaction(tx)
+        let tx_result = self.send_and_confirm_transaction(tx);
+        if tx_result.is_ok() {
+            self.refresh_permissions()?;
+        }
+        tx_result
     }
 
     /// Removes an existing authority from the wallet
@@ -283,7 +287,6 @@ impl<'c> SwigWallet<'c> {
             let tx_result = self.send_and_confirm_transaction(tx);
             if tx_result.is_ok() {
                 self.refresh_permissions()?;
-                self.instruction_builder.increment_odometer()?;
             }
             tx_result
         } else {
@@ -307,7 +310,6 @@ impl<'c> SwigWallet<'c> {
         inner_instructions: Vec<Instruction>,
         alt: Option<&[AddressLookupTableAccount]>,
     ) -> Result<Signature, SwigError> {
-        let signed_count = inner_instructions.len();
         let sign_ix = self
             .instruction_builder
             .sign_v2_instruction(inner_instructions, Some(self.get_current_slot()?))?;
@@ -326,9 +328,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            for _ in 0..signed_count {
-                self.instruction_builder.increment_odometer()?;
-            }
         }
         tx_result
     }
@@ -351,7 +350,6 @@ impl<'c> SwigWallet<'c> {
         update_data: UpdateAuthorityData,
     ) -> Result<Signature, SwigError> {
         let current_slot = self.get_current_slot()?;
-        let counter = self.get_odometer()?;
 
         let instructions = self.instruction_builder.update_authority(
             authority_to_update_id,
@@ -371,7 +369,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -402,7 +399,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -443,7 +439,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -482,7 +477,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -531,7 +525,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -574,7 +567,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -624,7 +616,6 @@ impl<'c> SwigWallet<'c> {
         match self.send_and_confirm_transaction(tx) {
             Ok(sig) => {
                 self.refresh_permissions()?;
-                self.instruction_builder.increment_odometer()?;
                 Ok((sig, subacc_id))
             },
             Err(e) => Err(e),
@@ -653,7 +644,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -680,7 +670,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -716,7 +705,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -743,7 +731,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -1325,7 +1312,8 @@ impl<'c> SwigWallet<'c> {
         Ok(&self.current_role.permissions)
     }
 
-    /// Updates the stored role permissions by fetching them from the chain
+    /// Updates the stored role permissions and odometer by fetching them from
+    /// the chain
     ///
     /// # Returns
     ///
@@ -1346,6 +1334,9 @@ impl<'c> SwigWallet<'c> {
             .map_err(|_| SwigError::AuthorityNotFound)?;
 
         if let Some(role) = role {
+            if let Some(odometer) = role.authority.signature_odometer() {
+                self.instruction_builder.update_odometer(odometer)?;
+            }
             self.current_role = build_current_role(role_id, &role);
         } else {
             return Err(SwigError::AuthorityNotFound);
@@ -1464,7 +1455,7 @@ impl<'c> SwigWallet<'c> {
         let tx = VersionedTransaction::try_new(VersionedMessage::V0(msg), &self.get_keypairs()?)?;
 
         self.send_and_confirm_transaction(tx)?;
-        Ok(())
+        self.refresh_permissions()
     }
 
     /// Sets the immutable rent claimer on the wallet
@@ -1493,7 +1484,7 @@ impl<'c> SwigWallet<'c> {
 
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
-            self.instruction_builder.increment_odometer()?;
+            self.refresh_permissions()?;
         }
         tx_result
     }
-- 
2.43.0


From 28920a8028473660e7e86ef6f789a7c857e64c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 36/38] fix: report the sub-account permissions of an SDK role

---
 rust-sdk/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-sdk/src/types.rs b/rust-sdk/src/types.rs
index d23dfed..f434490 100644
--- a/rust-sdk/src/types.rs
+++ b/rust-sdk/src/types.rs
@@ -586,7 +586,7 @@ impl Permission {
         }
 
         // Check for SubAccount permission
-        if let Some(action) = swig_state::role::Role::get_action::<SubAccount>(role, &[])
+        for action in swig_state::role::Role::get_all_actions_of_type::<SubAccount>(role)
             .map_err(|_| SwigError::InvalidSwigData)?
         {
             permissions.push(Permission::SubAccount {
-- 
2.43.0


From ba85175490137b3d95f4584cd6a4486c4db4573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 37/38] fix: sign sub-account withdrawals and toggles over the
 payer's real privileges

---
 interface/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 49ee21a..7375c7b 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2163,7 +2163,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2258,7 +2258,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2318,7 +2318,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2402,7 +2402,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2933,7 +2933,7 @@ impl ToggleSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
         ];
 
@@ -2994,7 +2994,7 @@ impl ToggleSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
-- 
2.43.0


From 6fd6eefad63c812fc504a53f5eb538c6bb8e22b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 38/38] fix: charge tokens that leave an account closed in the
 same SignV2

A closed token account was skipped when token limits were charged, so a role
with the close permission could send or burn any amount and close the account
in one request (or close a native account holding tokens) without any limit.
---
 program/src/actions/sign_v2.rs | 79 ++++++++++++++++++----------------
 program/src/lib.rs             |  4 ++
 state/src/lib.rs               |  2 +
 3 files changed, 48 insertions(+), 37 deletions(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 8378439..32c8335 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -86,7 +86,6 @@ const STAKE_DELEGATION_EXCLUDE_RANGE: core::ops::Range<usize> = 124..200;
 
 /// Token account field ranges
 const TOKEN_ACCOUNT_BASE_DATA_LEN: usize = 165;
-const TOKEN_MINT_RANGE: core::ops::Range<usize> = 0..32;
 const TOKEN_AUTHORITY_RANGE: core::ops::Range<usize> = 32..64;
 const TOKEN_BALANCE_RANGE: core::ops::Range<usize> = 64..72;
 const TOKEN_STATE_INDEX: usize = 108;
@@ -419,18 +418,19 @@ pub fn sign_v2(
                 }
 
                 match classifier {
-                    AccountClassification::SwigTokenAccount { balance, spent } => {
+                    AccountClassification::SwigTokenAccount { balance, spent, .. } => {
                         let data = unsafe { account.borrow_data_unchecked() };
 
-                        if data.len() < TOKEN_BALANCE_RANGE.end {
-                            continue;
-                        }
-
-                        let current = u64::from_le_bytes(unsafe {
-                            data.get_unchecked(TOKEN_BALANCE_RANGE)
-                                .try_into()
-                                .unwrap_or([0; 8])
-                        });
+                        // A closed account holds nothing: what it still held has left.
+                        let current = if data.len() < TOKEN_BALANCE_RANGE.end {
+                            0
+                        } else {
+                            u64::from_le_bytes(unsafe {
+                                data.get_unchecked(TOKEN_BALANCE_RANGE)
+                                    .try_into()
+                                    .unwrap_or([0; 8])
+                            })
+                        };
 
                         if current < *balance {
                             *spent = spent.saturating_add(*balance - current);
@@ -625,9 +625,11 @@ pub fn sign_v2(
 
                 continue;
             },
-            AccountClassification::SwigTokenAccount { spent, .. } => {
+            AccountClassification::SwigTokenAccount { mint, spent, .. } => {
                 let account_info = unsafe { all_accounts.get_unchecked(index) };
                 let data = unsafe { &account_info.borrow_data_unchecked() };
+                // A closed account no longer names its mint; an open one cannot change it.
+                let mint: &[u8] = mint;
 
                 // The on-chain token program resizes closed accounts to zero bytes,
                 // while its native test processor retains zeroed data. Both forms
@@ -642,35 +644,38 @@ pub fn sign_v2(
                         return Err(SwigError::AccountDataModifiedUnexpectedly.into());
                     }
 
-                    continue;
-                }
-
-                if data.len() < TOKEN_ACCOUNT_BASE_DATA_LEN {
-                    return Err(SwigError::AccountDataModifiedUnexpectedly.into());
-                }
-
-                if account_info.is_writable() {
-                    let exclude_ranges = [TOKEN_BALANCE_EXCLUDE_RANGE];
-                    let current_hash = hash_except(&data, account_info.owner(), &exclude_ranges);
-                    let snapshot_hash = unsafe { account_snapshots[index].assume_init_ref() };
-                    if *snapshot_hash != current_hash {
+                    // Closing is permitted, but tokens that left the account before it
+                    // was closed are charged like any others.
+                } else {
+                    if data.len() < TOKEN_ACCOUNT_BASE_DATA_LEN {
                         return Err(SwigError::AccountDataModifiedUnexpectedly.into());
                     }
-                }
 
-                let mint = unsafe { data.get_unchecked(TOKEN_MINT_RANGE) };
-                let state = unsafe { *data.get_unchecked(TOKEN_STATE_INDEX) };
-                let authority = unsafe { data.get_unchecked(TOKEN_AUTHORITY_RANGE) };
+                    if account_info.is_writable() {
+                        let exclude_ranges = [TOKEN_BALANCE_EXCLUDE_RANGE];
+                        let current_hash =
+                            hash_except(&data, account_info.owner(), &exclude_ranges);
+                        let snapshot_hash = unsafe { account_snapshots[index].assume_init_ref() };
+                        if *snapshot_hash != current_hash {
+                            return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                        }
+                    }
 
-                if authority != ctx.accounts.swig_wallet_address.key() {
-                    return Err(
-                        SwigAuthenticateError::PermissionDeniedTokenAccountAuthorityNotSwig.into(),
-                    );
-                }
-                if state != TOKEN_ACCOUNT_INITIALIZED_STATE {
-                    return Err(
-                        SwigAuthenticateError::PermissionDeniedTokenAccountNotInitialized.into(),
-                    );
+                    let state = unsafe { *data.get_unchecked(TOKEN_STATE_INDEX) };
+                    let authority = unsafe { data.get_unchecked(TOKEN_AUTHORITY_RANGE) };
+
+                    if authority != ctx.accounts.swig_wallet_address.key() {
+                        return Err(
+                            SwigAuthenticateError::PermissionDeniedTokenAccountAuthorityNotSwig
+                                .into(),
+                        );
+                    }
+                    if state != TOKEN_ACCOUNT_INITIALIZED_STATE {
+                        return Err(
+                            SwigAuthenticateError::PermissionDeniedTokenAccountNotInitialized
+                                .into(),
+                        );
+                    }
                 }
 
                 let total_token_spent = *spent;
diff --git a/program/src/lib.rs b/program/src/lib.rs
index 0e6ed31..e30d32c 100644
--- a/program/src/lib.rs
+++ b/program/src/lib.rs
@@ -491,6 +491,10 @@ unsafe fn classify_account(
             }
 
             Ok(AccountClassification::SwigTokenAccount {
+                mint: data
+                    .get_unchecked(0..32)
+                    .try_into()
+                    .map_err(|_| ProgramError::InvalidAccountData)?,
                 balance: u64::from_le_bytes(
                     data.get_unchecked(64..72)
                         .try_into()
diff --git a/state/src/lib.rs b/state/src/lib.rs
index e8f6835..fe02284 100644
--- a/state/src/lib.rs
+++ b/state/src/lib.rs
@@ -66,6 +66,8 @@ pub enum AccountClassification {
     SwigWalletAddress,
     /// A Swig token account with its token balance
     SwigTokenAccount {
+        /// The mint of the tokens in the account
+        mint: [u8; 32],
         /// The token balance in the account
         balance: u64,
         /// Amount spent from this account during this transaction
-- 
2.43.0

