From 698f5fb09f73a70caaebdb5eb9d06f8e152b0385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 01/72] fix: a recurring destination limit whose last_reset is
 ahead of the clock is not refilled

current_slot - last_reset wrapped in release builds, so such a limit was
refilled on every use and never limited anything. The other recurring limits
already use saturating_sub.
---
 state/src/action/sol_recurring_destination_limit.rs   | 4 +++-
 state/src/action/token_recurring_destination_limit.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/state/src/action/sol_recurring_destination_limit.rs b/state/src/action/sol_recurring_destination_limit.rs
index 8a3fade..dd84b7d 100644
--- a/state/src/action/sol_recurring_destination_limit.rs
+++ b/state/src/action/sol_recurring_destination_limit.rs
@@ -49,7 +49,9 @@ impl SolRecurringDestinationLimit {
     pub fn run(&mut self, lamport_diff: u64, current_slot: u64) -> Result<(), ProgramError> {
         // Reset the limit if the time window has expired and the operation would fit in
         // a fresh window
-        if current_slot - self.last_reset > self.window && lamport_diff <= self.recurring_amount {
+        if current_slot.saturating_sub(self.last_reset) > self.window
+            && lamport_diff <= self.recurring_amount
+        {
             self.current_amount = self.recurring_amount;
             self.last_reset = current_slot;
         }
diff --git a/state/src/action/token_recurring_destination_limit.rs b/state/src/action/token_recurring_destination_limit.rs
index a3639aa..9f97b62 100644
--- a/state/src/action/token_recurring_destination_limit.rs
+++ b/state/src/action/token_recurring_destination_limit.rs
@@ -54,7 +54,9 @@ impl TokenRecurringDestinationLimit {
     pub fn run(&mut self, token_diff: u64, current_slot: u64) -> Result<(), ProgramError> {
         // Reset the limit if the time window has expired and the operation would fit in
         // a fresh window
-        if current_slot - self.last_reset > self.window && token_diff <= self.recurring_amount {
+        if current_slot.saturating_sub(self.last_reset) > self.window
+            && token_diff <= self.recurring_amount
+        {
             self.current_amount = self.recurring_amount;
             self.last_reset = current_slot;
         }
-- 
2.43.0


From 6166662c561d0115abcc0b7b17fdefa346a1658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 02/72] fix: refuse a balance field whose start lies past its
 end

$end - $start wrapped in release builds; a start near usize::MAX could pass
the width check and read outside the account data.
---
 state/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/src/util.rs b/state/src/util.rs
index 53d5555..e08bf43 100644
--- a/state/src/util.rs
+++ b/state/src/util.rs
@@ -27,7 +27,7 @@
 #[macro_export]
 macro_rules! read_numeric_field {
     ($data:expr, $start:expr, $end:expr, $type:ty, $width:expr, $error:expr) => {{
-        if $end - $start != $width {
+        if $start > $end || $end - $start != $width {
             return Err($error);
         }
 
-- 
2.43.0


From a8c0d937f03b76fcf5d51c39ea3758e9b3d155ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 03/72] fix: a program-scope spend that overflows the running
 total is refused

With a limit of u128::MAX the saturating sum never exceeded the limit, so
spends kept being accepted after the total had overflowed.
---
 state/src/action/program_scope.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/state/src/action/program_scope.rs b/state/src/action/program_scope.rs
index 8e1a5a7..eb9318f 100644
--- a/state/src/action/program_scope.rs
+++ b/state/src/action/program_scope.rs
@@ -300,10 +300,12 @@ impl ProgramScope {
             x if x == ProgramScopeType::Limit as u8 => {
                 // For Limit type, current_amount represents the total spent so far
                 // We need to check if adding the new amount would exceed the limit
-                if self.current_amount.saturating_add(amount) > self.limit {
-                    return Err(SwigAuthenticateError::PermissionDeniedInsufficientBalance.into());
-                }
-                self.current_amount = self.current_amount.saturating_add(amount);
+                let spent = self
+                    .current_amount
+                    .checked_add(amount)
+                    .filter(|spent| *spent <= self.limit)
+                    .ok_or(SwigAuthenticateError::PermissionDeniedInsufficientBalance)?;
+                self.current_amount = spent;
                 Ok(())
             },
             x if x == ProgramScopeType::RecurringLimit as u8 => {
@@ -319,12 +321,14 @@ impl ProgramScope {
 
                 // Check if the requested amount plus what's already spent would exceed the
                 // limit
-                if self.current_amount.saturating_add(amount) > self.limit {
-                    return Err(SwigAuthenticateError::PermissionDeniedInsufficientBalance.into());
-                }
+                let spent = self
+                    .current_amount
+                    .checked_add(amount)
+                    .filter(|spent| *spent <= self.limit)
+                    .ok_or(SwigAuthenticateError::PermissionDeniedInsufficientBalance)?;
 
                 // Increase the spent amount
-                self.current_amount = self.current_amount.saturating_add(amount);
+                self.current_amount = spent;
                 Ok(())
             },
             _ => Err(SwigAuthenticateError::InvalidDataPayload.into()),
-- 
2.43.0


From f86180a6401cc41ddb90dbe1cb1dbb06fbd6548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 04/72] fix: recurring limit layouts check the length before
 slicing

A shorter action body made valid_layout panic instead of being refused with
an error.
---
 state/src/action/sol_recurring_limit.rs   | 9 ++++-----
 state/src/action/stake_recurring_limit.rs | 9 ++++-----
 state/src/action/token_recurring_limit.rs | 5 ++++-
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/state/src/action/sol_recurring_limit.rs b/state/src/action/sol_recurring_limit.rs
index 5ef62b3..a95a51f 100644
--- a/state/src/action/sol_recurring_limit.rs
+++ b/state/src/action/sol_recurring_limit.rs
@@ -77,15 +77,14 @@ impl<'a> Actionable<'a> for SolRecurringLimit {
     const REPEATABLE: bool = false;
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to recurring amount
         let current_amount = &data[24..32];
         let recurring_amount = &data[0..8];
         // last reset needs to be 0
         let last_reset = &data[16..24];
-        Ok(
-            current_amount == recurring_amount
-                && last_reset == &[0u8; 8]
-                && data.len() == Self::LEN,
-        )
+        Ok(current_amount == recurring_amount && last_reset == &[0u8; 8])
     }
 }
diff --git a/state/src/action/stake_recurring_limit.rs b/state/src/action/stake_recurring_limit.rs
index 055c6da..c0bc2c4 100644
--- a/state/src/action/stake_recurring_limit.rs
+++ b/state/src/action/stake_recurring_limit.rs
@@ -79,15 +79,14 @@ impl<'a> Actionable<'a> for StakeRecurringLimit {
     const REPEATABLE: bool = false;
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to recurring amount
         let current_amount = &data[24..32];
         let recurring_amount = &data[0..8];
         // last reset needs to be 0
         let last_reset = &data[16..24];
-        Ok(
-            current_amount == recurring_amount
-                && last_reset == &[0u8; 8]
-                && data.len() == Self::LEN,
-        )
+        Ok(current_amount == recurring_amount && last_reset == &[0u8; 8])
     }
 }
diff --git a/state/src/action/token_recurring_limit.rs b/state/src/action/token_recurring_limit.rs
index 14810c0..9d9ddf3 100644
--- a/state/src/action/token_recurring_limit.rs
+++ b/state/src/action/token_recurring_limit.rs
@@ -87,11 +87,14 @@ impl<'a> Actionable<'a> for TokenRecurringLimit {
     }
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to limit
         let current = &data[48..56];
         let limit = &data[40..48];
         // last reset needs to be 0
         let last_reset = &data[56..64];
-        Ok(current == limit && last_reset == &[0u8; 8] && data.len() == Self::LEN)
+        Ok(current == limit && last_reset == &[0u8; 8])
     }
 }
-- 
2.43.0


From 69f4d3b28bf3c1c57b1e4b8a1c0054b978c1810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 05/72] fix: a decoded bundle instruction owns its account list

The accounts and indexes slices of InstructionHolder pointed into arrays local
to parse_next_instruction, which are gone when it returns, and an instruction
with 255 accounts indexed past those arrays and aborted. The account metas now
live in the holder and the indexes are a slice of the bundle itself.
---
 instructions/src/lib.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index 1bea396..5b5f761 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -8,7 +8,7 @@
 /// - Restricted key handling
 /// - Memory-efficient instruction processing
 mod compact_instructions;
-use core::{marker::PhantomData, mem::MaybeUninit};
+use core::marker::PhantomData;
 
 pub use compact_instructions::*;
 use pinocchio::{
@@ -49,8 +49,8 @@ impl From<InstructionError> for ProgramError {
 pub struct InstructionHolder<'a> {
     pub program_id: &'a Pubkey,
     pub cpi_accounts: Vec<Account<'a>>,
-    pub indexes: &'a [usize],
-    pub accounts: &'a [AccountMeta<'a>],
+    pub indexes: &'a [u8],
+    pub accounts: Vec<AccountMeta<'a>>,
     pub data: &'a [u8],
     pub uses_swig_signer: bool,
 }
@@ -68,7 +68,7 @@ impl<'a> InstructionHolder<'a> {
             && unsafe { self.accounts.get_unchecked(0).pubkey == swig_key }
         {
             // Check if the "from" account (swig_key) is system-owned or program-owned
-            let from_account_index = unsafe { *self.indexes.get_unchecked(0) };
+            let from_account_index = unsafe { *self.indexes.get_unchecked(0) } as usize;
             let from_account = unsafe { all_accounts.get_unchecked(from_account_index) };
 
             if from_account.owner() == &pinocchio_system::ID {
@@ -92,8 +92,8 @@ impl<'a> InstructionHolder<'a> {
                 unsafe {
                     let index = self.indexes.get_unchecked(0);
                     let index2 = self.indexes.get_unchecked(1);
-                    let account1 = all_accounts.get_unchecked(*index);
-                    let account2 = all_accounts.get_unchecked(*index2);
+                    let account1 = all_accounts.get_unchecked(*index as usize);
+                    let account2 = all_accounts.get_unchecked(*index2 as usize);
 
                     *account1.borrow_mut_lamports_unchecked() -= amount;
                     *account2.borrow_mut_lamports_unchecked() += amount;
@@ -150,7 +150,7 @@ impl<'a> InstructionHolder<'a> {
     pub fn borrow(&'a self) -> Instruction<'a, 'a, 'a, 'a> {
         Instruction {
             program_id: self.program_id,
-            accounts: self.accounts,
+            accounts: &self.accounts,
             data: self.data,
         }
     }
@@ -283,24 +283,20 @@ where
         let (num_accounts, cursor) = self.read_u8()?;
         self.cursor = cursor;
         let num_accounts = num_accounts as usize;
-        const AM_UNINIT: MaybeUninit<AccountMeta> = MaybeUninit::uninit();
-        let mut accounts = [AM_UNINIT; MAX_ACCOUNTS];
+        let (indexes, cursor) = self.read_slice(num_accounts)?;
+        self.cursor = cursor;
+        let mut accounts = Vec::with_capacity(num_accounts);
         let mut infos = Vec::with_capacity(num_accounts);
-        const INDEX_UNINIT: MaybeUninit<usize> = MaybeUninit::uninit();
-        let mut indexes = [INDEX_UNINIT; MAX_ACCOUNTS];
         let mut uses_swig_signer = false;
-        for i in 0..num_accounts {
-            let (pubkey_index, cursor) = self.read_u8()?;
-            self.cursor = cursor;
-            let account = self.accounts.get_account(pubkey_index as usize)?;
-            indexes[i].write(pubkey_index as usize);
+        for pubkey_index in indexes {
+            let account = self.accounts.get_account(*pubkey_index as usize)?;
             let pubkey = account.pubkey();
             let is_signer = (pubkey == self.signer || account.signer())
                 && !self.restricted_keys.is_restricted(pubkey);
             if is_signer && pubkey == self.signer {
                 uses_swig_signer = true;
             }
-            accounts[i].write(AccountMeta {
+            accounts.push(AccountMeta {
                 pubkey,
                 is_signer,
                 is_writable: account.writable(),
@@ -317,8 +313,8 @@ where
         Ok(InstructionHolder {
             program_id,
             cpi_accounts: infos,
-            accounts: unsafe { core::slice::from_raw_parts(accounts.as_ptr() as _, num_accounts) },
-            indexes: unsafe { core::slice::from_raw_parts(indexes.as_ptr() as _, num_accounts) },
+            accounts,
+            indexes,
             data,
             uses_swig_signer,
         })
-- 
2.43.0


From 66daf2e69e002f2319d47dd8aa712f361bfabab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 06/72] fix: executing a system transfer with no accounts does
 not read past them

The first account of the inner instruction was read unchecked, and the direct
lamport move wrapped around instead of failing.
---
 instructions/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index 5b5f761..1de74a8 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -64,6 +64,7 @@ impl<'a> InstructionHolder<'a> {
     ) -> ProgramResult {
         if self.program_id == &pinocchio_system::ID
             && self.data.len() >= 12
+            && self.accounts.len() >= 2
             && unsafe { self.data.get_unchecked(0..4) == [2, 0, 0, 0] }
             && unsafe { self.accounts.get_unchecked(0).pubkey == swig_key }
         {
@@ -95,8 +96,14 @@ impl<'a> InstructionHolder<'a> {
                     let account1 = all_accounts.get_unchecked(*index as usize);
                     let account2 = all_accounts.get_unchecked(*index2 as usize);
 
-                    *account1.borrow_mut_lamports_unchecked() -= amount;
-                    *account2.borrow_mut_lamports_unchecked() += amount;
+                    let from_lamports = account1.borrow_mut_lamports_unchecked();
+                    *from_lamports = from_lamports
+                        .checked_sub(amount)
+                        .ok_or(ProgramError::InsufficientFunds)?;
+                    let to_lamports = account2.borrow_mut_lamports_unchecked();
+                    *to_lamports = to_lamports
+                        .checked_add(amount)
+                        .ok_or(ProgramError::ArithmeticOverflow)?;
                 }
             }
         } else {
-- 
2.43.0


From 3168750d4d4e1deb959123361edd7c82da1e3cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 07/72] fix: find_action walks the list by its lengths and
 returns the action's data

It followed the boundaries the client wrote, which nothing has checked at that
point (a zero boundary loops forever, another one can land inside a body), and
loaded the action from its header instead of its data.
---
 state/src/action/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/state/src/action/mod.rs b/state/src/action/mod.rs
index d86f2e5..b3020f6 100644
--- a/state/src/action/mod.rs
+++ b/state/src/action/mod.rs
@@ -353,13 +353,19 @@ impl ActionLoader {
         let mut cursor = 0;
 
         while cursor < bytes.len() {
-            let action = unsafe { Action::load_unchecked(&bytes[cursor..cursor + Action::LEN])? };
+            let data_start = cursor + Action::LEN;
+            let header = bytes
+                .get(cursor..data_start)
+                .ok_or(ProgramError::InvalidInstructionData)?;
+            let action = unsafe { Action::load_unchecked(header)? };
+            let data_end = data_start + action.length() as usize;
+            let data = bytes
+                .get(data_start..data_end)
+                .ok_or(ProgramError::InvalidInstructionData)?;
             if action.permission() == Ok(T::TYPE) {
-                return Ok(Some(unsafe {
-                    T::load_unchecked(&bytes[cursor..cursor + action.length() as usize])?
-                }));
+                return Ok(Some(unsafe { T::load_unchecked(data)? }));
             }
-            cursor = action.boundary() as usize;
+            cursor = data_end;
         }
         Ok(None)
     }
-- 
2.43.0


From 61b7cf0152cbd93eb0da85536d08e616916477c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 08/72] fix: bundling keeps every privilege an account was
 given

An account that was already in the list kept the flags of its first mention,
so a later writable mention (or a later signer mention of an account the
caller did not supply itself) was lost.
---
 instructions/src/compact_instructions.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/instructions/src/compact_instructions.rs b/instructions/src/compact_instructions.rs
index 1443272..d2935e5 100644
--- a/instructions/src/compact_instructions.rs
+++ b/instructions/src/compact_instructions.rs
@@ -37,6 +37,7 @@ mod inner {
         inner_instructions: Vec<Instruction>,
     ) -> (Vec<AccountMeta>, CompactInstructions) {
         let mut compact_ix = Vec::with_capacity(inner_instructions.len());
+        let supplied = accounts.len();
         let mut hashmap = accounts
             .iter()
             .enumerate()
@@ -52,6 +53,11 @@ mod inner {
                 }
                 let account_index = hashmap.get(&ix_account.pubkey);
                 if let Some(index) = account_index {
+                    accounts[*index].is_writable |= ix_account.is_writable;
+                    // The caller decides who signs among the accounts it supplied
+                    if *index >= supplied {
+                        accounts[*index].is_signer |= ix_account.is_signer;
+                    }
                     accts.push(*index as u8);
                 } else {
                     let idx = accounts.len();
@@ -97,6 +103,7 @@ mod inner {
         inner_instructions: Vec<Instruction>,
     ) -> (Vec<AccountMeta>, CompactInstructions) {
         let mut compact_ix = Vec::with_capacity(inner_instructions.len());
+        let supplied = accounts.len();
         let mut hashmap = accounts
             .iter()
             .enumerate()
@@ -115,6 +122,11 @@ mod inner {
                 }
                 let account_index = hashmap.get(&ix_account.pubkey);
                 if let Some(index) = account_index {
+                    accounts[*index].is_writable |= ix_account.is_writable;
+                    // The caller decides who signs among the accounts it supplied
+                    if *index >= supplied {
+                        accounts[*index].is_signer |= ix_account.is_signer;
+                    }
                     accts.push(*index as u8);
                 } else {
                     let idx = accounts.len();
-- 
2.43.0


From b9d2c78dd9275873661edf5c1c2948b768380c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 09/72] fix: a session longer than the remaining slots does not
 wrap around

---
 state/src/authority/ed25519.rs             | 2 +-
 state/src/authority/programexec/session.rs | 2 +-
 state/src/authority/secp256k1.rs           | 2 +-
 state/src/authority/secp256r1.rs           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/state/src/authority/ed25519.rs b/state/src/authority/ed25519.rs
index 286f8e2..c3f0dc6 100644
--- a/state/src/authority/ed25519.rs
+++ b/state/src/authority/ed25519.rs
@@ -260,7 +260,7 @@ impl AuthorityInfo for Ed25519SessionAuthority {
         if duration > self.max_session_length {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot.saturating_add(duration);
         self.session_key = session_key;
         Ok(())
     }
diff --git a/state/src/authority/programexec/session.rs b/state/src/authority/programexec/session.rs
index 6f3e5dc..814ce29 100644
--- a/state/src/authority/programexec/session.rs
+++ b/state/src/authority/programexec/session.rs
@@ -221,7 +221,7 @@ impl AuthorityInfo for ProgramExecSessionAuthority {
         if duration > self.max_session_length {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot.saturating_add(duration);
         self.session_key = session_key;
         Ok(())
     }
diff --git a/state/src/authority/secp256k1.rs b/state/src/authority/secp256k1.rs
index 7200c55..6fe2982 100644
--- a/state/src/authority/secp256k1.rs
+++ b/state/src/authority/secp256k1.rs
@@ -317,7 +317,7 @@ impl AuthorityInfo for Secp256k1SessionAuthority {
         if duration > self.max_session_age {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot.saturating_add(duration);
         self.session_key = session_key;
         Ok(())
     }
diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 2b30522..387e803 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -348,7 +348,7 @@ impl AuthorityInfo for Secp256r1SessionAuthority {
         if duration > self.max_session_age {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot.saturating_add(duration);
         self.session_key = session_key;
         Ok(())
     }
-- 
2.43.0


From cfa2303a05e9e12fbd61e2210f000579d5e2d6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 10/72] fix: a secp256k1 session payload that is empty is
 refused instead of aborting

---
 state/src/authority/secp256k1.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/state/src/authority/secp256k1.rs b/state/src/authority/secp256k1.rs
index 6fe2982..59dd189 100644
--- a/state/src/authority/secp256k1.rs
+++ b/state/src/authority/secp256k1.rs
@@ -298,6 +298,9 @@ impl AuthorityInfo for Secp256k1SessionAuthority {
         _data_payload: &[u8],
         slot: u64,
     ) -> Result<(), ProgramError> {
+        if authority_payload.is_empty() {
+            return Err(SwigAuthenticateError::InvalidAuthorityPayload.into());
+        }
         if slot > self.current_session_expiration {
             return Err(SwigAuthenticateError::PermissionDeniedSessionExpired.into());
         }
-- 
2.43.0


From e87e6ad70719804b193fb89d2be48c667b1a9bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 11/72] fix: a program-exec authority is not found by a longer
 prefix

---
 state/src/authority/programexec/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index 13cb511..7f01802 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -148,6 +148,7 @@ impl AuthorityInfo for ProgramExecAuthority {
         // The identity slice includes intermediate bytes (instruction_prefix_len +
         // padding) so we need to read instruction_prefix from IX_PREFIX_OFFSET
         sol_assert_bytes_eq(&self.program_id, &data[..32], 32)
+            && data[32] == self.instruction_prefix_len
             && sol_assert_bytes_eq(
                 &self.instruction_prefix[..self.instruction_prefix_len as usize],
                 &data[IX_PREFIX_OFFSET..IX_PREFIX_OFFSET + self.instruction_prefix_len as usize],
-- 
2.43.0


From d01cd12fec1af24834ce7b9ed930d34fbf44abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 12/72] fix: program-exec counts the accounts of the preceding
 instruction, not its data

---
 state/src/authority/programexec/mod.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index 7f01802..4807b8e 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -294,15 +294,6 @@ pub fn program_exec_authenticate(
 
     // Get the target instruction
     let preceding_ix = unsafe { ixs.deserialize_instruction_unchecked(verify_ix_index) };
-    let num_accounts = u16::from_le_bytes(unsafe {
-        *(preceding_ix.get_instruction_data().as_ptr() as *const [u8; 2])
-    });
-    if num_accounts < 2 {
-        return Err(
-            SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData.into(),
-        );
-    }
-
     // Verify the instruction is calling the expected program
     if !sol_assert_bytes_eq(preceding_ix.get_program_id(), expected_program_id, 32) {
         return Err(SwigAuthenticateError::PermissionDeniedProgramExecInvalidProgram.into());
@@ -328,8 +319,12 @@ pub fn program_exec_authenticate(
 
     // Verify the first two accounts of the preceding instruction are config and
     // wallet Get account meta at index 0 (should be config)
-    let account_0 = unsafe { preceding_ix.get_account_meta_at_unchecked(0) };
-    let account_1 = unsafe { preceding_ix.get_account_meta_at_unchecked(1) };
+    let account_0 = preceding_ix
+        .get_account_meta_at(0)
+        .map_err(|_| SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData)?;
+    let account_1 = preceding_ix
+        .get_account_meta_at(1)
+        .map_err(|_| SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData)?;
 
     // Verify the accounts match the config and wallet keys
     if !sol_assert_bytes_eq(account_0.key.as_ref(), config_account.key(), 32) {
-- 
2.43.0


From 97169a49ce8b7ebb59ed8c5c399f0b69c289c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 13/72] fix: braces inside nested strings of the client data
 are not structure

---
 state/src/authority/secp256r1.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 387e803..9fea92f 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -1036,6 +1036,14 @@ fn extract_top_level_string_field<'a>(
             continue;
         }
 
+        // Below the top level, nothing inside a string is structure.
+        if byte == b'"' {
+            cursor += 1;
+            while cursor < client_data_json.len() && client_data_json[cursor] != b'"' {
+                cursor += if client_data_json[cursor] == b'\\' { 2 } else { 1 };
+            }
+        }
+
         cursor += 1;
     }
 
-- 
2.43.0


From bd5da64a547191b71936860b099ad86e5dfcab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 14/72] fix: a truncated secp256r1 message is refused instead
 of aborting

---
 state/src/authority/secp256r1.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 9fea92f..c121ae4 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -648,7 +648,9 @@ pub fn verify_secp256r1_instruction_data(
     if offsets.message_data_offset as usize != MESSAGE_DATA_OFFSET {
         return Err(SwigAuthenticateError::PermissionDeniedSecp256r1InvalidInstruction.into());
     }
-    if offsets.message_data_size as usize != expected_message.len() {
+    if offsets.message_data_size as usize != expected_message.len()
+        || instruction_data.len() < MESSAGE_DATA_OFFSET + expected_message.len()
+    {
         return Err(SwigAuthenticateError::PermissionDeniedSecp256r1InvalidInstruction.into());
     }
 
-- 
2.43.0


From bc770a274af92afe04ac445299069daa4d9c2e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 15/72] fix: TransferAssets moves excess SOL after the token
 transfers

With both excess lamports and a token balance to move, the lamports were
changed directly before the token CPIs, which do not name the wallet
address: the runtime refuses the instruction as unbalanced.
---
 program/src/actions/transfer_assets_v1.rs | 36 ++++++++++++-----------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/program/src/actions/transfer_assets_v1.rs b/program/src/actions/transfer_assets_v1.rs
index b994e58..8014268 100644
--- a/program/src/actions/transfer_assets_v1.rs
+++ b/program/src/actions/transfer_assets_v1.rs
@@ -196,23 +196,6 @@ pub fn transfer_assets_v1(
     let swig_id = swig.id;
     let swig_signer = swig_account_signer(&swig_id, &bump);
 
-    // Transfer SOL from swig to swig wallet address
-    let swig_lamports = ctx.accounts.swig.lamports();
-    let rent = pinocchio::sysvars::rent::Rent::get()?;
-    let swig_data_len = ctx.accounts.swig.data_len();
-    let min_rent = rent.minimum_balance(swig_data_len);
-
-    if swig_lamports > min_rent {
-        let transfer_amount = swig_lamports - min_rent;
-        // Transfer SOL by directly manipulating lamports
-        unsafe {
-            *ctx.accounts.swig.borrow_mut_lamports_unchecked() -= transfer_amount;
-            *ctx.accounts
-                .swig_wallet_address
-                .borrow_mut_lamports_unchecked() += transfer_amount;
-        }
-    }
-
     // Transfer SPL tokens
     // We need to iterate through the remaining accounts to find token accounts
     let base_account_count = 4; // swig, swig_wallet_address, payer
@@ -298,5 +281,24 @@ pub fn transfer_assets_v1(
         }
     }
 
+    // Transfer SOL from swig to swig wallet address. This comes after the token
+    // CPIs: lamports moved directly must not be outstanding during a CPI that does
+    // not name both accounts, or the runtime sees an unbalanced instruction.
+    let swig_lamports = ctx.accounts.swig.lamports();
+    let rent = pinocchio::sysvars::rent::Rent::get()?;
+    let swig_data_len = ctx.accounts.swig.data_len();
+    let min_rent = rent.minimum_balance(swig_data_len);
+
+    if swig_lamports > min_rent {
+        let transfer_amount = swig_lamports - min_rent;
+        // Transfer SOL by directly manipulating lamports
+        unsafe {
+            *ctx.accounts.swig.borrow_mut_lamports_unchecked() -= transfer_amount;
+            *ctx.accounts
+                .swig_wallet_address
+                .borrow_mut_lamports_unchecked() += transfer_amount;
+        }
+    }
+
     Ok(())
 }
-- 
2.43.0


From 6ff1f25d810b55c1cf202383e142870a82f19a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 16/72] fix: actions a role already holds are not validated as
 new grants

A SubAccount action records its sub-account's address once that exists and
then no longer has the layout of a grant, so adding or removing any other
action of such a role, and creating a numbered sub-account with it, failed.
---
 program/src/actions/update_authority_v1.rs | 50 ++++++++++++++++++----
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/program/src/actions/update_authority_v1.rs b/program/src/actions/update_authority_v1.rs
index 180210d..bde793a 100644
--- a/program/src/actions/update_authority_v1.rs
+++ b/program/src/actions/update_authority_v1.rs
@@ -35,11 +35,13 @@ use crate::{
 ///
 /// # Arguments
 /// * `actions_data` - Raw bytes containing action data
+/// * `kept_len` - Length of the leading part that the authority already holds
+///   and that is not validated as a grant
 ///
 /// # Returns
 /// * `Result<u8, ProgramError>` - The number of actions found, or error if
 ///   invalid data
-fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
+fn calculate_num_actions(actions_data: &[u8], kept_len: usize) -> Result<u8, ProgramError> {
     let mut cursor = 0;
     let mut count = 0u8;
 
@@ -50,6 +52,7 @@ fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
 
         let action_header =
             unsafe { Action::load_unchecked(&actions_data[cursor..cursor + Action::LEN])? };
+        let kept = cursor < kept_len;
         cursor += Action::LEN;
 
         let action_len = action_header.length() as usize;
@@ -58,7 +61,7 @@ fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
         }
 
         let action_data = &actions_data[cursor..cursor + action_len];
-        if !ActionLoader::validate_layout(action_header.permission()?, action_data)? {
+        if !kept && !ActionLoader::validate_layout(action_header.permission()?, action_data)? {
             return Err(ProgramError::InvalidInstructionData);
         }
 
@@ -289,6 +292,34 @@ fn perform_replace_all_operation(
     current_actions_size: usize,
     new_actions: &[u8],
     authority_to_update_id: u32,
+) -> Result<i64, ProgramError> {
+    rewrite_actions(
+        swig_roles,
+        current_roles_len,
+        authority_offset,
+        actions_offset,
+        current_actions_size,
+        new_actions,
+        0,
+        authority_to_update_id,
+    )
+}
+
+/// Rewrites an authority's action list. The first `kept_len` bytes of
+/// `new_actions` are actions the authority already holds. They were validated
+/// when they were granted and may have changed since (a `SubAccount` action
+/// records the address of its sub-account once that exists), so only the
+/// actions after them are validated as grants.
+#[allow(clippy::too_many_arguments)]
+fn rewrite_actions(
+    swig_roles: &mut [u8],
+    current_roles_len: usize,
+    authority_offset: usize,
+    actions_offset: usize,
+    current_actions_size: usize,
+    new_actions: &[u8],
+    kept_len: usize,
+    authority_to_update_id: u32,
 ) -> Result<i64, ProgramError> {
     // Reject duplicate V2 sub-account scoped actions on the resulting role.
     // ReplaceAll receives the role's full new action list, and AddActions routes
@@ -340,7 +371,7 @@ fn perform_replace_all_operation(
             // Update the position for the role we're updating
             if position.id() == authority_to_update_id {
                 position.boundary = (position.boundary() as i64 + size_diff) as u32;
-                position.num_actions = calculate_num_actions(new_actions)? as u16;
+                position.num_actions = calculate_num_actions(new_actions, kept_len)? as u16;
             }
 
             cursor = position.boundary() as usize;
@@ -352,7 +383,7 @@ fn perform_replace_all_operation(
                 &mut swig_roles[authority_offset..authority_offset + Position::LEN],
             )?
         };
-        position.num_actions = calculate_num_actions(new_actions)? as u16;
+        position.num_actions = calculate_num_actions(new_actions, kept_len)? as u16;
     }
 
     let final_roles_len = (current_roles_len as i64 + size_diff) as usize;
@@ -382,7 +413,7 @@ fn perform_replace_all_operation(
         let permission = action_header.permission()?;
         let action_data =
             &new_actions[action_cursor + Action::LEN..action_cursor + total_action_size];
-        if !ActionLoader::validate_layout(permission, action_data)? {
+        if action_cursor >= kept_len && !ActionLoader::validate_layout(permission, action_data)? {
             return Err(ProgramError::InvalidInstructionData);
         }
 
@@ -425,13 +456,14 @@ fn perform_add_actions_operation(
     combined_actions.extend_from_slice(new_actions);
 
     // Use replace_all logic with combined actions
-    perform_replace_all_operation(
+    rewrite_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &combined_actions,
+        current_actions_size,
         authority_to_update_id,
     )
 }
@@ -599,13 +631,14 @@ fn perform_remove_by_type_operation(
     }
 
     // Use replace_all logic with filtered actions
-    perform_replace_all_operation(
+    rewrite_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &filtered_actions,
+        filtered_actions.len(),
         authority_to_update_id,
     )
 }
@@ -657,13 +690,14 @@ fn perform_remove_by_index_operation(
     }
 
     // Use replace_all logic with filtered actions
-    perform_replace_all_operation(
+    rewrite_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &filtered_actions,
+        filtered_actions.len(),
         authority_to_update_id,
     )
 }
-- 
2.43.0


From 1f50b3a9ab8d7b9330b9e6bcd45c22398eddd770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 17/72] fix: editing a role refunds only the freed rent

---
 program/src/actions/update_authority_v1.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/program/src/actions/update_authority_v1.rs b/program/src/actions/update_authority_v1.rs
index bde793a..fc4bfeb 100644
--- a/program/src/actions/update_authority_v1.rs
+++ b/program/src/actions/update_authority_v1.rs
@@ -957,17 +957,20 @@ pub fn update_authority_v1(
 
         ctx.accounts.swig.resize(aligned_size)?;
 
-        let cost = Rent::get()?.minimum_balance(aligned_size);
+        // Only the rent that was freed goes back to the payer.
+        let rent = Rent::get()?;
+        let freed_rent = rent
+            .minimum_balance(account_len)
+            .saturating_sub(rent.minimum_balance(aligned_size));
         let current_lamports = unsafe { *ctx.accounts.swig.borrow_lamports_unchecked() };
 
-        let additional_cost = current_lamports.saturating_sub(cost);
-
-        if additional_cost > 0 {
+        if freed_rent > 0 {
             unsafe {
-                *ctx.accounts.swig.borrow_mut_lamports_unchecked() =
-                    current_lamports - additional_cost;
+                *ctx.accounts.swig.borrow_mut_lamports_unchecked() = current_lamports
+                    .checked_sub(freed_rent)
+                    .ok_or(ProgramError::InsufficientFunds)?;
                 *ctx.accounts.payer.borrow_mut_lamports_unchecked() =
-                    ctx.accounts.payer.lamports() + additional_cost;
+                    ctx.accounts.payer.lamports() + freed_rent;
             };
         }
     }
-- 
2.43.0


From 350be27eb9b774d41898433cd1c7ad3e26450990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 18/72] fix: turning a V1 sub-account on or off accepts only 0
 and 1

---
 program/src/actions/toggle_sub_account_v1.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/program/src/actions/toggle_sub_account_v1.rs b/program/src/actions/toggle_sub_account_v1.rs
index 79c2d67..32c3da4 100644
--- a/program/src/actions/toggle_sub_account_v1.rs
+++ b/program/src/actions/toggle_sub_account_v1.rs
@@ -102,6 +102,11 @@ impl<'a> ToggleSubAccountV1<'a> {
         // Split the data into args and the rest (authority payload)
         let (args_data, authority_payload) = data.split_at(ToggleSubAccountV1Args::LEN);
 
+        // `enabled` is read as a `bool`, which has no value besides 0 and 1.
+        if args_data[core::mem::offset_of!(ToggleSubAccountV1Args, enabled)] > 1 {
+            return Err(ProgramError::InvalidInstructionData);
+        }
+
         let args = unsafe { ToggleSubAccountV1Args::load_unchecked(args_data)? };
 
         Ok(Self {
-- 
2.43.0


From 46ba27d20199ac336e20d6a313e7692ae65f9003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 19/72] fix: closing a token account requires it to be empty

---
 program/src/actions/close_token_account_v1.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/program/src/actions/close_token_account_v1.rs b/program/src/actions/close_token_account_v1.rs
index 5e8f28f..2a7a0d5 100644
--- a/program/src/actions/close_token_account_v1.rs
+++ b/program/src/actions/close_token_account_v1.rs
@@ -216,6 +216,12 @@ pub fn close_token_account_v1(
             return Err(ProgramError::InvalidAccountData);
         }
 
+        // The token program would close a wrapped SOL account with a balance and
+        // send that balance along with the rent, so emptiness is checked here.
+        if token_data[64..72] != [0u8; 8] {
+            return Err(SwigError::TokenAccountNotEmpty.into());
+        }
+
         // Token account authority is at bytes 32-64
         let token_authority = &token_data[32..64];
 
-- 
2.43.0


From d2da64f0d0e8b60f27683de40783f84be1a70957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 20/72] fix: a wallet cannot be closed into its own addresses

---
 program/src/actions/close_swig_v1.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/program/src/actions/close_swig_v1.rs b/program/src/actions/close_swig_v1.rs
index 0deb585..94478a2 100644
--- a/program/src/actions/close_swig_v1.rs
+++ b/program/src/actions/close_swig_v1.rs
@@ -156,6 +156,13 @@ pub fn close_swig_v1(
         }
     }
 
+    // Whatever is sent to the wallet's own addresses is lost once it is closed.
+    if ctx.accounts.destination.key() == ctx.accounts.swig.key()
+        || ctx.accounts.destination.key() == ctx.accounts.swig_wallet_address.key()
+    {
+        return Err(ProgramError::InvalidArgument);
+    }
+
     // Store swig values before dropping borrow
     let wallet_bump = swig.wallet_bump;
     let swig_data_len = swig_account_data.len();
-- 
2.43.0


From d41662c598fdbb4bbf81beae2854217184374c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 21/72] fix: a wallet is created only at its canonical
 addresses

---
 program/src/actions/create_v1.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/program/src/actions/create_v1.rs b/program/src/actions/create_v1.rs
index a7ebacf..435ddf9 100644
--- a/program/src/actions/create_v1.rs
+++ b/program/src/actions/create_v1.rs
@@ -9,13 +9,13 @@ use pinocchio::{
     ProgramResult,
 };
 use pinocchio_system::instructions::CreateAccount;
-use swig_assertions::{check_self_pda, check_system_owner, check_zero_data};
+use swig_assertions::{check_system_owner, check_zero_data, find_self_pda};
 use swig_state::{
     action::{all::All, manage_authority::ManageAuthority, ActionLoader, Actionable},
     authority::{authority_type_to_length, AuthorityType},
     role::Position,
     swig::{
-        swig_account_seeds_with_bump, swig_account_signer, swig_wallet_address_seeds_with_bump,
+        swig_account_seeds, swig_account_signer, swig_wallet_address_seeds,
         swig_wallet_address_signer, Swig, SwigBuilder,
     },
     IntoBytes, Transmutable,
@@ -150,11 +150,16 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
     check_zero_data(ctx.accounts.swig, SwigError::AccountNotEmptySwigAccount)?;
 
     let create_v1 = CreateV1::from_instruction_bytes(create)?;
-    let bump = check_self_pda(
-        &swig_account_seeds_with_bump(&create_v1.args.id, &[create_v1.args.bump]),
+    // Only the canonical address is accepted: sub-account addresses are derived
+    // from the id alone, so the id must belong to one wallet.
+    let bump = find_self_pda(
+        &swig_account_seeds(&create_v1.args.id),
         ctx.accounts.swig.key(),
         SwigError::InvalidSeedSwigAccount,
     )?;
+    if bump != create_v1.args.bump {
+        return Err(SwigError::InvalidSeedSwigAccount.into());
+    }
 
     // Validate swig wallet address account
     check_system_owner(
@@ -166,24 +171,15 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
         SwigError::AccountNotEmptySwigAccount,
     )?;
 
-    let wallet_address_bump = check_self_pda(
-        &swig_wallet_address_seeds_with_bump(
-            ctx.accounts.swig.key().as_ref(),
-            &[create_v1.args.wallet_address_bump],
-        ),
-        ctx.accounts.swig_wallet_address.key(),
-        SwigError::InvalidSeedSwigAccount,
-    )?;
-
     // Validate swig wallet address PDA
-    let wallet_address_bump = check_self_pda(
-        &swig_wallet_address_seeds_with_bump(
-            ctx.accounts.swig.key().as_ref(),
-            &[create_v1.args.wallet_address_bump],
-        ),
+    let wallet_address_bump = find_self_pda(
+        &swig_wallet_address_seeds(ctx.accounts.swig.key().as_ref()),
         ctx.accounts.swig_wallet_address.key(),
         SwigError::InvalidSeedSwigAccount,
     )?;
+    if wallet_address_bump != create_v1.args.wallet_address_bump {
+        return Err(SwigError::InvalidSeedSwigAccount.into());
+    }
 
     let manage_authority_action = create_v1.get_action::<ManageAuthority>()?;
     let all_action = create_v1.get_action::<All>()?;
-- 
2.43.0


From 5cd5b45d478689efad7a70222787faca55e29515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 22/72] fix: SOL sent to a config address beforehand does not
 block its creation

---
 program/src/actions/create_v1.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/program/src/actions/create_v1.rs b/program/src/actions/create_v1.rs
index 435ddf9..71339d8 100644
--- a/program/src/actions/create_v1.rs
+++ b/program/src/actions/create_v1.rs
@@ -8,7 +8,7 @@ use pinocchio::{
     sysvars::{rent::Rent, Sysvar},
     ProgramResult,
 };
-use pinocchio_system::instructions::CreateAccount;
+use pinocchio_system::instructions::{Allocate, Assign, Transfer};
 use swig_assertions::{check_system_owner, check_zero_data, find_self_pda};
 use swig_state::{
     action::{all::All, manage_authority::ManageAuthority, ActionLoader, Actionable},
@@ -209,16 +209,30 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
         lamports_needed - current_lamports
     };
 
-    CreateAccount {
-        from: ctx.accounts.payer,
-        to: ctx.accounts.swig,
-        lamports: lamports_to_transfer,
+    // Anyone can transfer SOL to this predictable PDA before creation, and
+    // `CreateAccount` rejects such a pre-funded destination. Top up, allocate,
+    // and assign separately so that pre-funding cannot block the id.
+    if lamports_to_transfer > 0 {
+        Transfer {
+            from: ctx.accounts.payer,
+            to: ctx.accounts.swig,
+            lamports: lamports_to_transfer,
+        }
+        .invoke()?;
+    }
+    let swig_bump = [swig.bump];
+    let swig_signer = swig_account_signer(&swig.id, &swig_bump);
+    let swig_signers = [swig_signer.as_slice().into()];
+    Allocate {
+        account: ctx.accounts.swig,
         space: account_size as u64,
+    }
+    .invoke_signed(&swig_signers)?;
+    Assign {
+        account: ctx.accounts.swig,
         owner: &crate::ID,
     }
-    .invoke_signed(&[swig_account_signer(&swig.id, &[swig.bump])
-        .as_slice()
-        .into()])?;
+    .invoke_signed(&swig_signers)?;
 
     // Transfer lamports to the swig_wallet_address via CPI to system program
     // This creates a system program owned account by transferring SOL to it
@@ -237,7 +251,7 @@ pub fn create_v1(ctx: Context<CreateV1Accounts>, create: &[u8]) -> ProgramResult
 
     if wallet_lamports_to_transfer > 0 {
         // Use CPI to system program for clean lamport transfer
-        pinocchio_system::instructions::Transfer {
+        Transfer {
             from: ctx.accounts.payer,
             to: ctx.accounts.swig_wallet_address,
             lamports: wallet_lamports_to_transfer,
-- 
2.43.0


From 50846ff3aab359c158846dd5500b8f920863b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 23/72] fix: a migrated wallet cannot be migrated again, nor to
 another wallet address

---
 .../actions/migrate_to_wallet_address_v1.rs   | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/program/src/actions/migrate_to_wallet_address_v1.rs b/program/src/actions/migrate_to_wallet_address_v1.rs
index dcf39dc..2440fed 100644
--- a/program/src/actions/migrate_to_wallet_address_v1.rs
+++ b/program/src/actions/migrate_to_wallet_address_v1.rs
@@ -12,10 +12,10 @@ use pinocchio::{
     sysvars::{clock::Clock, rent::Rent, Sysvar},
     ProgramResult,
 };
-use swig_assertions::{check_self_pda, check_system_owner, check_zero_data};
+use swig_assertions::{check_system_owner, check_zero_data, find_self_pda};
 use swig_state::{
     action::{all::All, manage_authority::ManageAuthority},
-    swig::{swig_wallet_address_seeds_with_bump, Swig},
+    swig::{swig_wallet_address_seeds, Swig},
     Discriminator, IntoBytes, SwigAuthenticateError, SwigStateError, Transmutable,
 };
 
@@ -25,6 +25,7 @@ use crate::{
         accounts::{Context, MigrateToWalletAddressV1Accounts},
         SwigInstruction,
     },
+    is_swig_v2,
 };
 
 /// Arguments for migrating a Swig account to wallet address feature.
@@ -158,12 +159,9 @@ pub fn migrate_to_wallet_address_v1(
         }
 
         // Check if this account is already migrated (has wallet_bump field)
-        // We can detect this by checking if reserved_lamports field is 0 and if the
-        // 41st byte (wallet_bump position) is non-zero
         let old_swig = unsafe { OldSwig::load_unchecked(&swig_data[..OldSwig::LEN])? };
-        let potential_wallet_bump = swig_data[40]; // Position where wallet_bump would be
 
-        if old_swig.reserved_lamports == 0 && potential_wallet_bump != 0 {
+        if unsafe { is_swig_v2(swig_data) } {
             msg!("Account appears to already be migrated");
             return Err(SwigError::StateError.into());
         }
@@ -219,14 +217,14 @@ pub fn migrate_to_wallet_address_v1(
     )?;
 
     // Validate the wallet address PDA
-    let wallet_address_bump = check_self_pda(
-        &swig_wallet_address_seeds_with_bump(
-            ctx.accounts.swig.key().as_ref(),
-            &[migrate.args.wallet_address_bump],
-        ),
+    let wallet_address_bump = find_self_pda(
+        &swig_wallet_address_seeds(ctx.accounts.swig.key().as_ref()),
         ctx.accounts.swig_wallet_address.key(),
         SwigError::InvalidSeedSwigAccount,
     )?;
+    if wallet_address_bump != migrate.args.wallet_address_bump {
+        return Err(SwigError::InvalidSeedSwigAccount.into());
+    }
 
     // Create the new Swig structure with wallet_bump
     let new_swig = Swig::new(old_swig_id, old_swig_bump, wallet_address_bump);
-- 
2.43.0


From ce4217fda3952c134e5f9411611359d850d80774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:34 +0000
Subject: [PATCH 24/72] fix: the curated program list names Token-2022 and the
 stake program

---
 state/src/action/program_curated.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/state/src/action/program_curated.rs b/state/src/action/program_curated.rs
index fe5c488..e3cf6b5 100644
--- a/state/src/action/program_curated.rs
+++ b/state/src/action/program_curated.rs
@@ -24,13 +24,13 @@ const CURATED_PROGRAMS: &[[u8; 32]] = &[
     ],
     // SPL Token 2022 Program (TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb)
     [
-        6, 221, 246, 225, 238, 117, 143, 222, 138, 60, 137, 215, 166, 35, 250, 133, 224, 81, 209,
-        114, 91, 157, 99, 29, 94, 145, 213, 104, 233, 4, 16, 238,
+        6, 221, 246, 225, 238, 117, 143, 222, 24, 66, 93, 188, 228, 108, 205, 218, 182, 26, 252,
+        77, 131, 185, 13, 39, 254, 189, 249, 40, 216, 161, 139, 252,
     ],
     // Staking Program (Stake11111111111111111111111111111111111111)
     [
-        6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 86, 165, 18, 7,
-        142, 233, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+        6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 127, 83, 92,
+        138, 120, 114, 43, 104, 164, 157, 192, 0, 0, 0, 0,
     ],
 ];
 
-- 
2.43.0


From d343f2717411441d0287915388d007d81f888198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 25/72] fix: a transfer to the source account does not count
 towards destination limits

---
 program/src/actions/sign_v2.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 178bb8c..d66dfac 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -931,6 +931,12 @@ where
         }
 
         let destination_pubkey = instruction.accounts[1].pubkey;
+        // A transfer back to the source spends nothing; counting it would let it
+        // stand in for a spend that was not parsed.
+        if destination_pubkey == source_account_bytes {
+            continue;
+        }
+
         let amount = u64::from_le_bytes([
             instruction.data[4],
             instruction.data[5],
@@ -1002,6 +1008,12 @@ where
         }
 
         let destination_pubkey = instruction.accounts[destination_index].pubkey;
+        // A transfer back to the source spends nothing; counting it would let it
+        // stand in for a spend that was not parsed.
+        if destination_pubkey == source_account_bytes {
+            continue;
+        }
+
         let amount = u64::from_le_bytes([
             instruction.data[1],
             instruction.data[2],
-- 
2.43.0


From f4d24dfda6a022c8f17dfd74c445213c58158f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 26/72] fix: a watched balance is measured from the acting
 role's own field

---
 program/src/actions/sign_v2.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index d66dfac..6f7eec7 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -306,7 +306,7 @@ pub fn sign_v2(
     let mut total_sol_spent: u64 = 0;
 
     // Build exclusion ranges for each account type for snapshots
-    for (index, account_classifier) in account_classifiers.iter().enumerate() {
+    for (index, account_classifier) in account_classifiers.iter_mut().enumerate() {
         let account = unsafe { all_accounts.get_unchecked(index) };
 
         // Only check writable accounts as read-only accounts won't modify data
@@ -338,7 +338,7 @@ pub fn sign_v2(
                 let hash = hash_except(&data, account.owner(), &exclude_ranges);
                 Some(hash)
             },
-            AccountClassification::ProgramScope { .. } => {
+            AccountClassification::ProgramScope { balance, .. } => {
                 let data = unsafe { account.borrow_data_unchecked() };
                 // For program scope, we need to get the actual program scope to know what to
                 // exclude, and include owner in hash
@@ -349,6 +349,11 @@ pub fn sign_v2(
                     let start = program_scope.balance_field_start as usize;
                     let end = program_scope.balance_field_end as usize;
                     if start < end && end <= data.len() {
+                        // The classification read the balance field of the first
+                        // role that watches this account; spends are measured on
+                        // the acting role's field.
+                        *balance = program_scope.read_account_balance(data)?;
+
                         let exclude_ranges = [start..end];
                         let hash = hash_except(&data, account.owner(), &exclude_ranges);
                         Some(hash)
-- 
2.43.0


From e23bcdbff006734510981334612aac2ac040dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 27/72] fix: a limited role cannot assign or allocate the
 wallet address

---
 program/src/actions/sign_v2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 6f7eec7..f16b13d 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -304,6 +304,7 @@ pub fn sign_v2(
         [UNINIT_HASH; MAX_ACCOUNT_SNAPSHOTS];
 
     let mut total_sol_spent: u64 = 0;
+    let swig_wallet_address_data_len = ctx.accounts.swig_wallet_address.data_len();
 
     // Build exclusion ranges for each account type for snapshots
     for (index, account_classifier) in account_classifiers.iter_mut().enumerate() {
@@ -534,6 +535,14 @@ pub fn sign_v2(
                     }
                 }
 
+                // The wallet address signs the CPIs, so the system program would
+                // assign it to another program or allocate it: it stays as it was.
+                if ctx.accounts.swig_wallet_address.owner() != &SYSTEM_PROGRAM_ID
+                    || ctx.accounts.swig_wallet_address.data_len() != swig_wallet_address_data_len
+                {
+                    return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                }
+
                 let swig_wallet_balance = ctx.accounts.swig_wallet_address.lamports();
                 let swig_wallet_rent_exempt_minimum = pinocchio::sysvars::rent::Rent::get()?
                     .minimum_balance(ctx.accounts.swig_wallet_address.data_len());
-- 
2.43.0


From 4442e87f8c65b077a57684b602e4f1d19bb7a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 28/72] fix: an account's tokens count as spent when it is
 closed with them

---
 program/src/actions/sign_v2.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index f16b13d..366425b 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -106,6 +106,7 @@ const MAX_ACCOUNT_SNAPSHOTS: usize = 100;
 const SYSTEM_TRANSFER_DISCRIMINATOR: u32 = 2;
 const SYSTEM_TRANSFER_DATA_LEN: usize = 12;
 const TOKEN_TRANSFER_DISCRIMINATOR: u8 = 3;
+const TOKEN_CLOSE_ACCOUNT_DISCRIMINATOR: u8 = 9;
 const TOKEN_TRANSFER_CHECKED_DISCRIMINATOR: u8 = 12;
 const TOKEN_TRANSFER_DATA_LEN: usize = 9;
 const TOKEN_TRANSFER_CHECKED_DATA_LEN: usize = 10;
@@ -407,6 +408,15 @@ pub fn sign_v2(
                 total_sol_spent = total_sol_spent.saturating_add(amount_spent);
             }
 
+            // A token account closed into the wallet address: one that still holds
+            // tokens is wrapped SOL, which becomes the wallet's SOL.
+            let closes_into_wallet = (*instruction.program_id == SPL_TOKEN_ID
+                || *instruction.program_id == SPL_TOKEN_2022_ID)
+                && instruction.data.first() == Some(&TOKEN_CLOSE_ACCOUNT_DISCRIMINATOR)
+                && instruction.accounts.get(1).map_or(false, |destination| {
+                    destination.pubkey == ctx.accounts.swig_wallet_address.key()
+                });
+
             // After execution, scan writable accounts once and update spent in-place
             for (account_index, classifier) in account_classifiers.iter_mut().enumerate() {
                 let account = unsafe { all_accounts.get_unchecked(account_index) };
@@ -419,7 +429,11 @@ pub fn sign_v2(
                     AccountClassification::SwigTokenAccount { balance, spent } => {
                         let data = unsafe { account.borrow_data_unchecked() };
 
-                        if data.len() < TOKEN_BALANCE_RANGE.end {
+                        if data.len() < TOKEN_BALANCE_RANGE.end || account.lamports() == 0 {
+                            if !closes_into_wallet {
+                                *spent = spent.saturating_add(*balance);
+                            }
+                            *balance = 0;
                             continue;
                         }
 
@@ -638,6 +652,11 @@ pub fn sign_v2(
                     if account_info.lamports() != 0 || account_info.owner() != &SYSTEM_PROGRAM_ID {
                         return Err(SwigError::AccountDataModifiedUnexpectedly.into());
                     }
+                    // The closed account no longer tells its mint, so nothing can
+                    // be charged to a limit: what was spent from it is refused.
+                    if *spent != 0 {
+                        return Err(SwigError::TokenAccountNotEmpty.into());
+                    }
 
                     continue;
                 }
-- 
2.43.0


From b280beae629d83ab1d417cb9626a2d9fc2c14b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 29/72] fix: withdrawals with full rights reach the sub-account
 of every role

---
 program/src/actions/withdraw_from_sub_account_v1.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/program/src/actions/withdraw_from_sub_account_v1.rs b/program/src/actions/withdraw_from_sub_account_v1.rs
index 38dc055..93c2d52 100644
--- a/program/src/actions/withdraw_from_sub_account_v1.rs
+++ b/program/src/actions/withdraw_from_sub_account_v1.rs
@@ -224,13 +224,13 @@ pub fn withdraw_from_sub_account_v1(
         (action.role_id, action.bump)
     } else {
         // For All/ManageAuthority cases without SubAccount action, we need to find the
-        // role that created this sub-account We'll try different role IDs to
-        // see which one matches the given sub-account address
+        // role that created this sub-account: try every role ID handed out so far
+        // (roles that were removed since included) to see which one matches the
+        // given sub-account address
         let mut found_role_id = None;
         let mut found_bump = None;
 
-        // Try role IDs from 0 to some reasonable maximum (let's try up to 10)
-        for potential_role_id in 0u32..=10u32 {
+        for potential_role_id in 0u32..swig.role_counter {
             let role_id_bytes = potential_role_id.to_le_bytes();
             let sub_account_seeds = swig_state::swig::sub_account_seeds(&swig.id, &role_id_bytes);
             let (derived_address, bump) =
-- 
2.43.0


From c2a1f479ff18df702888961d7a801d85bea8efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 30/72] fix: holding ManageAuthority beside All does not narrow
 withdrawals from sub-accounts

---
 program/src/actions/withdraw_from_sub_account_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/actions/withdraw_from_sub_account_v1.rs b/program/src/actions/withdraw_from_sub_account_v1.rs
index 93c2d52..f40eaa2 100644
--- a/program/src/actions/withdraw_from_sub_account_v1.rs
+++ b/program/src/actions/withdraw_from_sub_account_v1.rs
@@ -198,7 +198,7 @@ pub fn withdraw_from_sub_account_v1(
         // For All permission, allow withdrawal from any sub-account (no validation
         // needed) For ManageAuthority permission, restrict to sub-accounts
         // created by the withdrawing role
-        if manage_authority_action.is_some() {
+        if all_action.is_none() {
             let role_id_bytes = withdraw.args.role_id.to_le_bytes();
             let sub_account_seeds = swig_state::swig::sub_account_seeds(&swig.id, &role_id_bytes);
             let (expected_sub_account, _expected_bump) =
-- 
2.43.0


From fe9dddce11bff611c7041704d7c3df89cddaa42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 31/72] fix: a role-bound sub-account is created only at its
 canonical address

---
 program/src/actions/create_sub_account_v1.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/program/src/actions/create_sub_account_v1.rs b/program/src/actions/create_sub_account_v1.rs
index 16b6a51..5e3e9fe 100644
--- a/program/src/actions/create_sub_account_v1.rs
+++ b/program/src/actions/create_sub_account_v1.rs
@@ -22,7 +22,7 @@ use swig_state::{
     authority::AuthorityType,
     role::RoleMut,
     swig::{
-        sub_account_seeds_with_bump, sub_account_signer, swig_account_seeds_with_bump,
+        sub_account_seeds, sub_account_signer, swig_account_seeds_with_bump,
         swig_account_signer, Swig,
     },
     Discriminator, IntoBytes, SwigAuthenticateError, Transmutable, TransmutableMut,
@@ -203,14 +203,17 @@ pub fn create_sub_account_v1(
     // Derive the sub-account address using the authority index as seed (keeping PDA
     // for deterministic addressing)
     let role_id_bytes = create_sub_account.args.role_id.to_le_bytes();
-    let bump_byte = [create_sub_account.args.sub_account_bump];
-    let sub_account_seeds = sub_account_seeds_with_bump(&swig.id, &role_id_bytes, &bump_byte);
-    // Check that sub_account passed in matches derived address
-    let bump = check_self_pda(
+    let sub_account_seeds = sub_account_seeds(&swig.id, &role_id_bytes);
+    // Check that sub_account passed in matches the canonical derived address, which
+    // is the one that withdrawals by other roles look for
+    let bump = find_self_pda(
         &sub_account_seeds,
         ctx.accounts.sub_account.key(),
         SwigError::InvalidSeedSwigAccount,
     )?;
+    if bump != create_sub_account.args.sub_account_bump {
+        return Err(SwigError::InvalidSeedSwigAccount.into());
+    }
 
     // Transfer lamports to the sub_account to make it system-owned and rent-exempt
     // This follows the same pattern as swig_wallet_address creation in create_v1.rs
-- 
2.43.0


From 177d0f5888ab811cdd2a7211a656b43fa64a2cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 32/72] fix: a numbered sub-account is created only at its
 canonical addresses

---
 program/src/actions/create_sub_account_v2.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/program/src/actions/create_sub_account_v2.rs b/program/src/actions/create_sub_account_v2.rs
index 9149e70..8cf515a 100644
--- a/program/src/actions/create_sub_account_v2.rs
+++ b/program/src/actions/create_sub_account_v2.rs
@@ -22,8 +22,7 @@ use swig_state::{
     action::{sub_account_v2::SubAccountV2Create, Action, Permission},
     sub_account_v2::SubAccountV2,
     swig::{
-        sub_account_v2_asset_seeds_with_bump, sub_account_v2_state_seeds_with_bump,
-        sub_account_v2_state_signer, Swig,
+        sub_account_v2_asset_seeds, sub_account_v2_state_seeds, sub_account_v2_state_signer, Swig,
     },
     Discriminator, IntoBytes, Transmutable, TransmutableMut,
 };
@@ -191,22 +190,26 @@ pub fn create_sub_account_v2(
         (new_id, swig.id, already_granted)
     };
 
-    // Verify both PDAs match the provided bumps.
+    // Verify both PDAs are the canonical ones and match the provided bumps.
     let id_le = new_id.to_le_bytes();
     let state_bump = [create.args.state_bump];
-    let asset_bump = [create.args.asset_bump];
-    let state_seeds = sub_account_v2_state_seeds_with_bump(&swig_id, &id_le, &state_bump);
-    check_self_pda(
+    let state_seeds = sub_account_v2_state_seeds(&swig_id, &id_le);
+    let canonical_state_bump = find_self_pda(
         &state_seeds,
         ctx.accounts.sub_account_state.key(),
         SwigError::InvalidSeedSubAccountV2,
     )?;
-    let asset_seeds = sub_account_v2_asset_seeds_with_bump(&swig_id, &id_le, &asset_bump);
-    check_self_pda(
+    let asset_seeds = sub_account_v2_asset_seeds(&swig_id, &id_le);
+    let canonical_asset_bump = find_self_pda(
         &asset_seeds,
         ctx.accounts.sub_account.key(),
         SwigError::InvalidSeedSubAccountV2,
     )?;
+    if canonical_state_bump != create.args.state_bump
+        || canonical_asset_bump != create.args.asset_bump
+    {
+        return Err(SwigError::InvalidSeedSubAccountV2.into());
+    }
 
     // Initialize the program-owned state account. Anyone can transfer SOL to
     // this predictable PDA before creation, and `CreateAccount` rejects such a
-- 
2.43.0


From c2b8f4c7d8c3f9c3656dd44e6f2e03d9ae5154f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 33/72] fix: secp256k1 builders for sub-accounts and asset
 transfers carry the counter

---
 interface/src/lib.rs        | 52 ++++++++++++++++++++++++++++++-------
 rust-sdk/src/client_role.rs | 10 +++++++
 2 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 979ee92..1ec5640 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -1910,6 +1910,7 @@ impl CreateSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         role_id: u32,
         sub_account_bump: u8,
@@ -1940,13 +1941,19 @@ impl CreateSubAccountInstruction {
         }
 
         // Sign the payload
-        let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, args_bytes, &account_payload_bytes, &[]);
+        let nonced_payload = prepare_secp256k1_payload(
+            current_slot,
+            counter,
+            args_bytes,
+            &account_payload_bytes,
+            &[],
+        );
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2149,6 +2156,7 @@ impl WithdrawFromSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         swig_wallet_address: Pubkey,
         role_id: u32,
@@ -2182,13 +2190,19 @@ impl WithdrawFromSubAccountInstruction {
         }
 
         // Sign the payload
-        let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, args_bytes, &account_payload_bytes, &[]);
+        let nonced_payload = prepare_secp256k1_payload(
+            current_slot,
+            counter,
+            args_bytes,
+            &account_payload_bytes,
+            &[],
+        );
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2239,6 +2253,7 @@ impl WithdrawFromSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         swig_wallet_address: Pubkey,
         sub_account_token: Pubkey,
@@ -2278,13 +2293,19 @@ impl WithdrawFromSubAccountInstruction {
         }
 
         // Sign the payload
-        let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, args_bytes, &account_payload_bytes, &[]);
+        let nonced_payload = prepare_secp256k1_payload(
+            current_slot,
+            counter,
+            args_bytes,
+            &account_payload_bytes,
+            &[],
+        );
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2670,6 +2691,7 @@ impl SubAccountSignInstruction {
         sub_account: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         role_id: u32,
         instructions: Vec<Instruction>,
     ) -> anyhow::Result<Instruction>
@@ -2699,13 +2721,19 @@ impl SubAccountSignInstruction {
         }
 
         // Sign the payload
-        let nonced_payload =
-            prepare_secp256k1_payload(current_slot, 0u32, &ix_bytes, &account_payload_bytes, &[]);
+        let nonced_payload = prepare_secp256k1_payload(
+            current_slot,
+            counter,
+            &ix_bytes,
+            &account_payload_bytes,
+            &[],
+        );
         let signature = authority_payload_fn(&nonced_payload);
 
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -2913,6 +2941,7 @@ impl ToggleSubAccountInstruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         sub_account: Pubkey,
         role_id: u32,
         auth_role_id: u32,
@@ -2947,7 +2976,7 @@ impl ToggleSubAccountInstruction {
         // Sign the payload
         let nonced_payload = prepare_secp256k1_payload(
             current_slot,
-            0u32,
+            counter,
             args_bytes,
             &account_payload_bytes,
             prefix,
@@ -2957,6 +2986,7 @@ impl ToggleSubAccountInstruction {
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
@@ -3158,6 +3188,7 @@ impl TransferAssetsV1Instruction {
         payer: Pubkey,
         mut authority_payload_fn: F,
         current_slot: u64,
+        counter: u32,
         role_id: u32,
     ) -> anyhow::Result<Instruction>
     where
@@ -3189,7 +3220,7 @@ impl TransferAssetsV1Instruction {
         // Sign the payload
         let nonced_payload = prepare_secp256k1_payload(
             current_slot,
-            0u32,
+            counter,
             args_bytes,
             &account_payload_bytes,
             prefix,
@@ -3199,6 +3230,7 @@ impl TransferAssetsV1Instruction {
         // Add authority payload
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes());
+        authority_payload.extend_from_slice(&counter.to_le_bytes());
         authority_payload.extend_from_slice(&signature);
 
         Ok(Instruction {
diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index b457c73..9340fbc 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -819,6 +819,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         Ok(vec![
             CreateSubAccountInstruction::new_with_secp256k1_authority(
@@ -826,6 +827,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 role_id,
                 sub_account_bump,
@@ -842,6 +844,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         Ok(vec![
             SubAccountSignInstruction::new_with_secp256k1_authority(
@@ -849,6 +852,7 @@ impl ClientRole for Secp256k1ClientRole {
                 sub_account,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 role_id,
                 instructions,
             )?,
@@ -865,6 +869,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -878,6 +883,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 swig_wallet_address,
                 role_id,
@@ -899,6 +905,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -912,6 +919,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 swig_wallet_address,
                 sub_account_token,
@@ -934,6 +942,7 @@ impl ClientRole for Secp256k1ClientRole {
         current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
+        let new_odometer = self.odometer.wrapping_add(1);
 
         Ok(vec![
             ToggleSubAccountInstruction::new_with_secp256k1_authority(
@@ -941,6 +950,7 @@ impl ClientRole for Secp256k1ClientRole {
                 payer,
                 &self.signing_fn,
                 current_slot,
+                new_odometer,
                 sub_account,
                 role_id,
                 auth_role_id,
-- 
2.43.0


From 6731e2a51c4ba4d75964b967101ac35492d98524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 34/72] fix: secp256r1 builders for sub-accounts and asset
 transfers send a full payload

---
 interface/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 1ec5640..b6e62a1 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2030,6 +2030,7 @@ impl CreateSubAccountInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -2471,6 +2472,7 @@ impl WithdrawFromSubAccountInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(3); // this is the index of the instruction sysvar (account 3)
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -2810,7 +2812,8 @@ impl SubAccountSignInstruction {
         let mut authority_payload = Vec::new();
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
-        authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.push(3); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -3064,6 +3067,7 @@ impl ToggleSubAccountInstruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         let main_ix = Instruction {
             program_id: program_id(),
@@ -3306,6 +3310,7 @@ impl TransferAssetsV1Instruction {
         authority_payload.extend_from_slice(&current_slot.to_le_bytes()); // 8 bytes
         authority_payload.extend_from_slice(&counter.to_le_bytes()); // 4 bytes
         authority_payload.push(4); // this is the index of the instruction sysvar
+        authority_payload.extend_from_slice(&[0u8; 4]); // 4 bytes padding to meet 17 byte minimum
 
         // Create the main instruction
         let main_ix = Instruction {
-- 
2.43.0


From 390b4be15975d01bdea9d5f7424fb121e1b5c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 35/72] fix: SubAccountSign builders list the accounts the
 program expects

---
 interface/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index b6e62a1..67ffa13 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2701,7 +2701,7 @@ impl SubAccountSignInstruction {
         F: FnMut(&[u8]) -> [u8; 65],
     {
         let accounts = vec![
-            AccountMeta::new_readonly(swig_account, false),
+            AccountMeta::new(swig_account, false),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
@@ -2759,7 +2759,7 @@ impl SubAccountSignInstruction {
         F: FnMut(&[u8]) -> [u8; 64],
     {
         let accounts = vec![
-            AccountMeta::new_readonly(swig_account, false),
+            AccountMeta::new(swig_account, false),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
@@ -2836,9 +2836,9 @@ impl SubAccountSignInstruction {
 
         let mut accounts = vec![
             AccountMeta::new_readonly(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
+            AccountMeta::new_readonly(payer, true),
         ];
 
         // Add instructions sysvar at a stable index
@@ -2879,9 +2879,9 @@ impl SubAccountSignInstruction {
 
         let mut accounts = vec![
             AccountMeta::new_readonly(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
+            AccountMeta::new_readonly(payer, true),
         ];
 
         let instruction_sysvar_index = accounts.len() as u8;
-- 
2.43.0


From 8a42e5a00130518bcf0dda8dc2e4bb2570288649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 36/72] fix: WithdrawFromSubAccount program exec builders list
 the accounts the program expects

---
 interface/src/lib.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 67ffa13..394fc8c 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2494,17 +2494,17 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
 
-        // Add instructions sysvar at a stable index
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
+        // The instructions sysvar is the authority context account
+        let instruction_sysvar_index = 3;
 
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
@@ -2538,20 +2538,20 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
+            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(sub_account_token, false),
             AccountMeta::new(swig_token, false),
-            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(token_program, false),
         ];
 
-        // Add instructions sysvar at a stable index
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
+        // The instructions sysvar is the authority context account
+        let instruction_sysvar_index = 3;
 
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
@@ -2583,16 +2583,17 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
         ];
 
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
+        // The instructions sysvar is the authority context account
+        let instruction_sysvar_index = 3;
 
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
@@ -2626,19 +2627,20 @@ impl WithdrawFromSubAccountInstruction {
     ) -> anyhow::Result<Vec<Instruction>> {
         use solana_sdk::sysvar::instructions::ID as INSTRUCTIONS_ID;
 
-        let mut accounts = vec![
+        let accounts = vec![
             AccountMeta::new(swig_account, false),
             AccountMeta::new_readonly(payer, true),
             AccountMeta::new(sub_account, false),
+            AccountMeta::new_readonly(INSTRUCTIONS_ID, false),
             AccountMeta::new(swig_wallet_address, false),
+            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(sub_account_token, false),
             AccountMeta::new(swig_token, false),
-            AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(token_program, false),
         ];
 
-        let instruction_sysvar_index = accounts.len() as u8;
-        accounts.push(AccountMeta::new_readonly(INSTRUCTIONS_ID, false));
+        // The instructions sysvar is the authority context account
+        let instruction_sysvar_index = 3;
 
         let args = WithdrawFromSubAccountV1Args::new(role_id, amount);
         let args_bytes = args
-- 
2.43.0


From 8ffaeb9eed77282f5afb98bfd209c21d159271c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 37/72] fix: Permission::from_role: report sub-account
 permissions whose account exists

---
 rust-sdk/src/types.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust-sdk/src/types.rs b/rust-sdk/src/types.rs
index 2b891ae..fb99989 100644
--- a/rust-sdk/src/types.rs
+++ b/rust-sdk/src/types.rs
@@ -585,8 +585,9 @@ impl Permission {
             });
         }
 
-        // Check for SubAccount permission
-        if let Some(action) = swig_state::role::Role::get_action::<SubAccount>(role, &[])
+        // Check for SubAccount permissions, whether or not the sub-account has been
+        // created yet
+        for action in swig_state::role::Role::get_all_actions_of_type::<SubAccount>(role)
             .map_err(|_| SwigError::InvalidSwigData)?
         {
             permissions.push(Permission::SubAccount {
-- 
2.43.0


From 2f1d16eb49adb22576826c13527d43c7d1bd1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 38/72] fix: Ed25519SessionClientRole: sign sub-account
 requests with the session key

---
 rust-sdk/src/client_role.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index 9340fbc..e3aaf0a 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -1844,7 +1844,7 @@ impl ClientRole for Ed25519SessionClientRole {
         sub_account_bump: u8,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
         Ok(vec![
             CreateSubAccountInstruction::new_with_ed25519_authority(
                 swig_account,
@@ -1865,7 +1865,7 @@ impl ClientRole for Ed25519SessionClientRole {
         instructions: Vec<Instruction>,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
         Ok(vec![SubAccountSignInstruction::new_with_ed25519_authority(
             swig_account,
             sub_account,
@@ -1884,7 +1884,7 @@ impl ClientRole for Ed25519SessionClientRole {
         amount: u64,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -1917,7 +1917,7 @@ impl ClientRole for Ed25519SessionClientRole {
         amount: u64,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
 
         // Derive the swig wallet address
         let (swig_wallet_address, _) = Pubkey::find_program_address(
@@ -1951,7 +1951,7 @@ impl ClientRole for Ed25519SessionClientRole {
         enabled: bool,
         _current_slot: Option<u64>,
     ) -> Result<Vec<Instruction>, SwigError> {
-        let session_key = Pubkey::new_from_array(self.session_authority.public_key);
+        let session_key = Pubkey::new_from_array(self.session_authority.session_key);
         Ok(vec![
             ToggleSubAccountInstruction::new_with_ed25519_authority(
                 swig_account,
-- 
2.43.0


From e3d49cd75a3bd82cac3d52e41fab271e4acfdde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 39/72] fix: Secp256k1ClientRole: add any authority without
 losing its first byte

---
 rust-sdk/src/client_role.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index e3aaf0a..99b5098 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -717,6 +717,12 @@ impl ClientRole for Secp256k1ClientRole {
         let current_slot = current_slot.ok_or(SwigError::CurrentSlotNotSet)?;
         let new_odometer = self.odometer.wrapping_add(1);
 
+        // The program takes an uncompressed Secp256k1 key without its leading 0x04.
+        let new_authority = match (new_authority_type, new_authority) {
+            (AuthorityType::Secp256k1, [0x04, key @ ..]) if key.len() == 64 => key,
+            _ => new_authority,
+        };
+
         let instructions = AddAuthorityInstruction::new_with_secp256k1_authority(
             swig_account,
             payer,
@@ -726,7 +732,7 @@ impl ClientRole for Secp256k1ClientRole {
             role_id,
             AuthorityConfig {
                 authority_type: new_authority_type,
-                authority: &new_authority[1..],
+                authority: new_authority,
             },
             actions,
         )?;
-- 
2.43.0


From fd778b48f9eedacf6d05d97bd32bc363e5468818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 40/72] fix: ProgramExecClientRole: sign the caller's
 instructions

---
 rust-sdk/src/client_role.rs | 59 +++++++++++++++----------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index 99b5098..daae398 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -3560,45 +3560,32 @@ where
         _current_slot: Option<u64>,
         transaction_signers: &[Pubkey],
     ) -> Result<Vec<Instruction>, SwigError> {
-        // Build the inner instruction using compact_instructions
-        let base_accounts = vec![
-            solana_program::instruction::AccountMeta::new(swig_account, false),
-            solana_program::instruction::AccountMeta::new(swig_wallet_address, false),
-        ];
-
-        // Add transaction signers as readonly signers
-        let mut accounts_with_signers = base_accounts;
-        for signer in transaction_signers {
-            accounts_with_signers.push(solana_program::instruction::AccountMeta::new_readonly(
-                *signer, true,
-            ));
-        }
-
-        let (_, compact_ixs) =
-            swig_interface::compact_instructions(swig_account, accounts_with_signers, instructions);
-
-        let inner_instruction = solana_program::instruction::Instruction {
-            program_id: swig_interface::program_id(),
-            accounts: vec![],
-            data: compact_ixs.into_bytes(),
-        };
-
-        // Get the preceding instruction from the function
-        let preceding_instruction = (self.preceding_instruction_fn)();
-
         // Determine payer from transaction_signers (first signer is typically the
         // payer)
         let payer = transaction_signers.first().copied().unwrap_or(swig_account);
 
-        // Use SignV2 with ProgramExec
-        SignV2Instruction::new_program_exec(
-            swig_account,
-            swig_wallet_address,
-            payer,
-            preceding_instruction,
-            inner_instruction,
-            role_id,
-        )
-        .map_err(|e| SwigError::InterfaceError(e.to_string()))
+        // Every instruction is signed on its own, right after an instruction that
+        // authenticates it
+        let mut signed_instructions = Vec::new();
+        for instruction in instructions {
+            let mut pair = SignV2Instruction::new_program_exec(
+                swig_account,
+                swig_wallet_address,
+                payer,
+                (self.preceding_instruction_fn)(),
+                instruction,
+                role_id,
+            )
+            .map_err(|e| SwigError::InterfaceError(e.to_string()))?;
+            if let Some(sign_instruction) = pair.last_mut() {
+                for account in &mut sign_instruction.accounts {
+                    if transaction_signers.contains(&account.pubkey) {
+                        account.is_signer = true;
+                    }
+                }
+            }
+            signed_instructions.extend(pair);
+        }
+        Ok(signed_instructions)
     }
 }
-- 
2.43.0


From 85c09f9dbf1d19adea03e52863a1455c6c7f37dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 41/72] fix: Secp256k1/Secp256r1 client roles: sign each
 instruction with the next counter

---
 rust-sdk/src/client_role.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index daae398..eeed46d 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -1191,9 +1191,10 @@ impl ClientRole for Secp256k1ClientRole {
     ) -> Result<Vec<Instruction>, SwigError> {
         let mut signed_instructions = Vec::new();
         let current_slot = current_slot.ok_or(SwigError::SlotRequired)?;
-        let new_odometer = self.odometer.wrapping_add(1);
+        let mut new_odometer = self.odometer;
 
         for instruction in instructions {
+            new_odometer = new_odometer.wrapping_add(1);
             let swig_signed_instruction = SignV2Instruction::new_secp256k1_with_signers(
                 swig_account,
                 swig_wallet_address,
@@ -1713,9 +1714,10 @@ impl ClientRole for Secp256r1ClientRole {
     ) -> Result<Vec<Instruction>, SwigError> {
         let mut signed_instructions = Vec::new();
         let current_slot = current_slot.ok_or(SwigError::SlotRequired)?;
-        let new_odometer = self.odometer.wrapping_add(1);
+        let mut new_odometer = self.odometer;
 
         for instruction in instructions {
+            new_odometer = new_odometer.wrapping_add(1);
             let swig_signed_instructions = SignV2Instruction::new_secp256r1_with_signers(
                 swig_account,
                 swig_wallet_address,
-- 
2.43.0


From d73fb62b11a29c28f7f1831a2e09e8924f070593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 42/72] fix: Permission::from_role: report every ProgramScope
 permission

---
 rust-sdk/src/types.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rust-sdk/src/types.rs b/rust-sdk/src/types.rs
index fb99989..b5b23c5 100644
--- a/rust-sdk/src/types.rs
+++ b/rust-sdk/src/types.rs
@@ -561,17 +561,16 @@ impl Permission {
             });
         }
 
-        // Check for ProgramScope permission
-        if let Some(action) =
-            swig_state::role::Role::get_action::<ProgramScope>(role, &spl_token::ID.to_bytes())
-                .map_err(|_| SwigError::InvalidSwigData)?
+        // Check for ProgramScope permissions, whatever their target account
+        for action in swig_state::role::Role::get_all_actions_of_type::<ProgramScope>(role)
+            .map_err(|_| SwigError::InvalidSwigData)?
         {
             permissions.push(Permission::ProgramScope {
                 program_id: Pubkey::new_from_array(action.program_id),
                 target_account: Pubkey::new_from_array(action.target_account),
                 numeric_type: action.numeric_type,
                 limit: if action.scope_type > 0 {
-                    Some(action.limit as u64)
+                    Some(u64::try_from(action.limit).unwrap_or(u64::MAX))
                 } else {
                     None
                 },
-- 
2.43.0


From 9d9fa88f61bb106a0caaefd6ec9328ae928e079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 43/72] fix: SwigWallet::get_current_authority_permissions:
 report every permission

---
 rust-sdk/src/wallet.rs | 62 +-----------------------------------------
 1 file changed, 1 insertion(+), 61 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index a3b610b..213d205 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -855,67 +855,7 @@ impl<'c> SwigWallet<'c> {
     /// Returns a `Result` containing a vector of the authority's permissions or
     /// a `SwigError`
     pub fn get_current_authority_permissions(&self) -> Result<Vec<Permission>, SwigError> {
-        let swig_pubkey = self.get_swig_account()?;
-
-        #[cfg(not(all(feature = "rust_sdk_test", test)))]
-        let swig_account = self.rpc_client.get_account(&swig_pubkey)?;
-        #[cfg(all(feature = "rust_sdk_test", test))]
-        let swig_account = self.litesvm.get_account(&swig_pubkey).unwrap();
-
-        #[cfg(not(all(feature = "rust_sdk_test", test)))]
-        let swig_data = self.rpc_client.get_account_data(&swig_pubkey)?;
-        #[cfg(all(feature = "rust_sdk_test", test))]
-        let swig_data = self.litesvm.get_account(&swig_pubkey).unwrap().data;
-        let swig_with_roles =
-            SwigWithRoles::from_bytes(&swig_data).map_err(|e| SwigError::InvalidSwigData)?;
-
-        let mut permissions: Vec<Permission> = Vec::new();
-        for i in 0..swig_with_roles.state.role_counter {
-            let role = swig_with_roles.get_role(i).unwrap();
-            if let Some(role) = role {
-                if role
-                    .authority
-                    .match_data(self.instruction_builder.get_current_authority()?.as_ref())
-                {
-                    if (Role::get_action::<All>(&role, &[])
-                        .map_err(|_| SwigError::AuthorityNotFound)?)
-                    .is_some()
-                    {
-                        permissions.push(Permission::All);
-                    }
-                    // Sol Limit
-                    if let Some(action) = Role::get_action::<SolLimit>(&role, &[])
-                        .map_err(|_| SwigError::AuthorityNotFound)?
-                    {
-                        permissions.push(Permission::Sol {
-                            amount: action.amount,
-                            recurring: None,
-                        });
-                    }
-                    // Sol Recurring
-                    if let Some(action) = Role::get_action::<SolRecurringLimit>(&role, &[])
-                        .map_err(|_| SwigError::AuthorityNotFound)?
-                    {
-                        permissions.push(Permission::Sol {
-                            amount: action.recurring_amount,
-                            recurring: Some(RecurringConfig {
-                                window: action.window,
-                                last_reset: action.last_reset,
-                                current_amount: action.current_amount,
-                            }),
-                        });
-                    }
-                    // Manage Authority
-                    if (Role::get_action::<ManageAuthority>(&role, &[])
-                        .map_err(|_| SwigError::AuthorityNotFound)?)
-                    .is_some()
-                    {
-                        println!("\t\tManage Authority permission exists");
-                    }
-                }
-            }
-        }
-        Ok(permissions)
+        self.get_role_permissions(self.get_current_role_id()?)
     }
 
     /// Displays detailed information about the Swig wallet
-- 
2.43.0


From 53fe1b8ec3e6ae9b579bff92bf40d551c2b5ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 44/72] fix: SwigWallet::new: find an existing secp session
 role

---
 rust-sdk/src/wallet.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 213d205..f7a342a 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -173,7 +173,13 @@ impl<'c> SwigWallet<'c> {
             let swig_with_roles =
                 SwigWithRoles::from_bytes(&swig_data).map_err(|e| SwigError::InvalidSwigData)?;
 
-            let authority_bytes = client_role.authority_bytes()?;
+            let mut authority_bytes = client_role.authority_bytes()?;
+            // A session role is looked up by its public key alone
+            match client_role.authority_type() {
+                AuthorityType::Secp256k1Session => authority_bytes.truncate(64),
+                AuthorityType::Secp256r1Session => authority_bytes.truncate(33),
+                _ => {},
+            }
             let role_id = swig_with_roles
                 .lookup_role_id(authority_bytes.as_ref())
                 .map_err(|_| SwigError::AuthorityNotFound)?
-- 
2.43.0


From 9e5e31a94c42270c1b6160df42e1c1d454c2b491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 45/72] fix: SwigWallet: take the odometer from the chain after
 every request

---
 rust-sdk/src/instruction_builder.rs |  6 ++++++
 rust-sdk/src/wallet.rs              | 30 +++++++++++++----------------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/rust-sdk/src/instruction_builder.rs b/rust-sdk/src/instruction_builder.rs
index 8004603..9e921dc 100644
--- a/rust-sdk/src/instruction_builder.rs
+++ b/rust-sdk/src/instruction_builder.rs
@@ -699,4 +699,10 @@ impl SwigInstructionBuilder {
     pub fn increment_odometer(&mut self) -> Result<(), SwigError> {
         self.client_role.increment_odometer()
     }
+
+    /// Updates the odometer for the current authority if it is Secp based
+    /// authority
+    pub fn update_odometer(&mut self, odometer: u32) -> Result<(), SwigError> {
+        self.client_role.update_odometer(odometer)
+    }
 }
diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index f7a342a..5ed3020 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -252,7 +252,11 @@ impl<'c> SwigWallet<'c> {
             &[self.fee_payer.insecure_clone()],
         )?;
 
-        self.send_and_confirm_transaction(tx)
+        let tx_result = self.send_and_confirm_transaction(tx);
+        if tx_result.is_ok() {
+            self.refresh_permissions()?;
+        }
+        tx_result
     }
 
     /// Removes an existing authority from the wallet
@@ -295,7 +299,6 @@ impl<'c> SwigWallet<'c> {
             let tx_result = self.send_and_confirm_transaction(tx);
             if tx_result.is_ok() {
                 self.refresh_permissions()?;
-                self.instruction_builder.increment_odometer()?;
             }
             tx_result
         } else {
@@ -337,7 +340,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -360,7 +362,6 @@ impl<'c> SwigWallet<'c> {
         update_data: UpdateAuthorityData,
     ) -> Result<Signature, SwigError> {
         let current_slot = self.get_current_slot()?;
-        let counter = self.get_odometer()?;
 
         let instructions = self.instruction_builder.update_authority(
             authority_to_update_id,
@@ -380,7 +381,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -411,7 +411,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -452,7 +451,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -491,7 +489,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -540,7 +537,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -583,7 +579,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -633,7 +628,6 @@ impl<'c> SwigWallet<'c> {
         match self.send_and_confirm_transaction(tx) {
             Ok(sig) => {
                 self.refresh_permissions()?;
-                self.instruction_builder.increment_odometer()?;
                 Ok((sig, subacc_id))
             },
             Err(e) => Err(e),
@@ -662,7 +656,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -689,7 +682,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -725,7 +717,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -752,7 +743,6 @@ impl<'c> SwigWallet<'c> {
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
             self.refresh_permissions()?;
-            self.instruction_builder.increment_odometer()?;
         }
         tx_result
     }
@@ -1274,7 +1264,8 @@ impl<'c> SwigWallet<'c> {
         Ok(&self.current_role.permissions)
     }
 
-    /// Updates the stored role permissions by fetching them from the chain
+    /// Updates the stored role permissions and the odometer by fetching them
+    /// from the chain
     ///
     /// # Returns
     ///
@@ -1295,6 +1286,10 @@ impl<'c> SwigWallet<'c> {
             .map_err(|_| SwigError::AuthorityNotFound)?;
 
         if let Some(role) = role {
+            // The next signature has to use the on chain odometer
+            if let Some(odometer) = role.authority.signature_odometer() {
+                self.instruction_builder.update_odometer(odometer)?;
+            }
             self.current_role = build_current_role(role_id, &role);
         } else {
             return Err(SwigError::AuthorityNotFound);
@@ -1416,6 +1411,7 @@ impl<'c> SwigWallet<'c> {
         )?;
 
         self.send_and_confirm_transaction(tx)?;
+        self.refresh_permissions()?;
         Ok(())
     }
 
@@ -1448,7 +1444,7 @@ impl<'c> SwigWallet<'c> {
 
         let tx_result = self.send_and_confirm_transaction(tx);
         if tx_result.is_ok() {
-            self.instruction_builder.increment_odometer()?;
+            self.refresh_permissions()?;
         }
         tx_result
     }
-- 
2.43.0


From 029d89860a34611c82495d81228991213a55153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 46/72] fix: SwigWallet: sign with the authority's keypair
 wherever the request needs it

---
 rust-sdk/src/wallet.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 5ed3020..0c5674e 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -249,7 +249,7 @@ impl<'c> SwigWallet<'c> {
 
         let tx = VersionedTransaction::try_new(
             VersionedMessage::V0(msg),
-            &[self.fee_payer.insecure_clone()],
+            &self.get_required_keypairs(&instruction)?,
         )?;
 
         let tx_result = self.send_and_confirm_transaction(tx);
@@ -293,7 +293,7 @@ impl<'c> SwigWallet<'c> {
 
             let tx = VersionedTransaction::try_new(
                 VersionedMessage::V0(msg),
-                &[self.fee_payer.insecure_clone()],
+                &self.get_required_keypairs(&instructions)?,
             )?;
 
             let tx_result = self.send_and_confirm_transaction(tx);
@@ -1407,7 +1407,7 @@ impl<'c> SwigWallet<'c> {
 
         let tx = VersionedTransaction::try_new(
             VersionedMessage::V0(msg),
-            &[&self.fee_payer.insecure_clone()],
+            &self.get_required_keypairs(&create_session_instructions)?,
         )?;
 
         self.send_and_confirm_transaction(tx)?;
@@ -1439,7 +1439,7 @@ impl<'c> SwigWallet<'c> {
         )?;
         let tx = VersionedTransaction::try_new(
             VersionedMessage::V0(msg),
-            &[self.fee_payer.insecure_clone()],
+            &self.get_required_keypairs(&instructions)?,
         )?;
 
         let tx_result = self.send_and_confirm_transaction(tx);
@@ -1535,6 +1535,32 @@ impl<'c> SwigWallet<'c> {
         Ok(keypairs)
     }
 
+    /// Returns the keypairs that have to sign the given instructions
+    ///
+    /// # Arguments
+    ///
+    /// * `instructions` - The instructions of the transaction
+    ///
+    /// # Returns
+    ///
+    /// Returns a `Result` containing the fee payer's keypair, and the authority's
+    /// if one of the instructions is signed with it, or a `SwigError`
+    fn get_required_keypairs(
+        &self,
+        instructions: &[Instruction],
+    ) -> Result<Vec<&Keypair>, SwigError> {
+        let mut keypairs = self.get_keypairs()?;
+        keypairs.retain(|keypair| {
+            let pubkey = keypair.pubkey();
+            pubkey == self.fee_payer.pubkey()
+                || instructions
+                    .iter()
+                    .flat_map(|instruction| &instruction.accounts)
+                    .any(|account| account.is_signer && account.pubkey == pubkey)
+        });
+        Ok(keypairs)
+    }
+
     /// Returns the swig id
     ///
     /// # Returns
-- 
2.43.0


From 8c698d37d3aafea2588ca2fc95320d1a7efc8548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:06 +0000
Subject: [PATCH 47/72] fix: secp builders for sub-account withdrawals and
 toggles: sign for a writable payer

---
 interface/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interface/src/lib.rs b/interface/src/lib.rs
index 394fc8c..980d11d 100644
--- a/interface/src/lib.rs
+++ b/interface/src/lib.rs
@@ -2168,7 +2168,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2268,7 +2268,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2333,7 +2333,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2417,7 +2417,7 @@ impl WithdrawFromSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
             AccountMeta::new(swig_wallet_address, false),
@@ -2957,7 +2957,7 @@ impl ToggleSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
         ];
 
@@ -3018,7 +3018,7 @@ impl ToggleSubAccountInstruction {
     {
         let accounts = vec![
             AccountMeta::new(swig_account, false),
-            AccountMeta::new_readonly(payer, true),
+            AccountMeta::new(payer, true),
             AccountMeta::new(sub_account, false),
             AccountMeta::new_readonly(solana_system_interface::program::ID, false),
             AccountMeta::new_readonly(solana_sdk::sysvar::instructions::ID, false),
-- 
2.43.0


From 6d22e59f76824ac95d9d8e07cab349b60366d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 48/72] fix: ProgramExecClientRole: do not ask the config
 account to sign for a sub-account

---
 rust-sdk/src/client_role.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rust-sdk/src/client_role.rs b/rust-sdk/src/client_role.rs
index eeed46d..4440dac 100644
--- a/rust-sdk/src/client_role.rs
+++ b/rust-sdk/src/client_role.rs
@@ -3393,7 +3393,7 @@ where
 
         let preceding_instruction = (self.preceding_instruction_fn)();
 
-        SubAccountSignInstruction::new_with_program_exec(
+        let mut instructions = SubAccountSignInstruction::new_with_program_exec(
             swig_account,
             sub_account,
             payer,
@@ -3401,7 +3401,17 @@ where
             role_id,
             instructions,
         )
-        .map_err(|e| SwigError::InterfaceError(e.to_string()))
+        .map_err(|e| SwigError::InterfaceError(e.to_string()))?;
+
+        // The placeholder is a program derived address, which cannot sign
+        if let Some(sign_instruction) = instructions.last_mut() {
+            for account in sign_instruction.accounts.iter_mut() {
+                if account.pubkey == payer {
+                    account.is_signer = false;
+                }
+            }
+        }
+        Ok(instructions)
     }
 
     fn withdraw_token_from_sub_account_instruction(
-- 
2.43.0


From cf7a61f2832e790b03df0fa86eee286d56fb0a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:03 +0000
Subject: [PATCH 49/72] fix: give each short option of a command one meaning

---
 cli/src/main.rs | 60 ++++++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index f6e5c50..e8154d5 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -85,9 +85,9 @@ pub enum Command {
     Create {
         #[arg(short, long)]
         authority_type: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_kp: Option<String>,
         #[arg(short, long)]
         fee_payer: Option<String>,
@@ -99,9 +99,9 @@ pub enum Command {
         // Signing authority
         #[arg(short, long)]
         authority_type: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_kp: Option<String>,
         #[arg(short, long)]
         fee_payer: Option<String>,
@@ -110,7 +110,7 @@ pub enum Command {
         // New authority
         #[arg(short, long)]
         new_authority: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         new_authority_type: Option<String>,
         #[arg(short, long, value_parser, num_args = 1.., value_delimiter = ',')]
         permissions: Vec<String>,
@@ -120,9 +120,9 @@ pub enum Command {
         // Signing authority
         #[arg(short, long)]
         authority_type: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_kp: Option<String>,
         #[arg(short, long)]
         fee_payer: Option<String>,
@@ -137,16 +137,16 @@ pub enum Command {
         // Signing authority
         #[arg(short, long)]
         authority_type: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_kp: Option<String>,
         #[arg(short, long)]
         fee_payer: Option<String>,
         #[arg(short, long = "swig-id")]
         id: String,
         // Authority to update
-        #[arg(short, long)]
+        #[arg(long)]
         authority_to_update_id: u32,
         // Update operation
         #[arg(short, long)]
@@ -155,10 +155,10 @@ pub enum Command {
         #[arg(short, long, value_parser, num_args = 0.., value_delimiter = ',')]
         permissions: Vec<String>,
         // Action types to remove (for RemoveActionsByType operation)
-        #[arg(short, long, value_parser, num_args = 0.., value_delimiter = ',')]
+        #[arg(long, value_parser, num_args = 0.., value_delimiter = ',')]
         action_types: Vec<String>,
         // Indices to remove (for RemoveActionsByIndex operation)
-        #[arg(short, long, value_parser, num_args = 0.., value_delimiter = ',')]
+        #[arg(long, value_parser, num_args = 0.., value_delimiter = ',')]
         indices: Vec<u16>,
     },
     /// View wallet details
@@ -166,9 +166,9 @@ pub enum Command {
         // Signing authority
         #[arg(short, long)]
         authority_type: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_kp: Option<String>,
         #[arg(short, long = "swig-id")]
         id: String,
@@ -178,9 +178,9 @@ pub enum Command {
         // Signing authority
         #[arg(short, long)]
         authority_type: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_kp: Option<String>,
         #[arg(short, long = "swig-id")]
         id: String,
@@ -190,24 +190,24 @@ pub enum Command {
         // Signing authority
         #[arg(short, long)]
         authority_type: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_kp: Option<String>,
         #[arg(short, long = "swig-id")]
         id: String,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_to_fetch: String,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_type_to_fetch: String,
     },
     /// Create a sub-account for the wallet
     CreateSubAccount {
         #[arg(short, long)]
         authority_type: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_kp: Option<String>,
         #[arg(short, long = "swig-id")]
         id: String,
@@ -216,24 +216,24 @@ pub enum Command {
     TransferFromSubAccount {
         #[arg(short, long)]
         authority_type: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_kp: Option<String>,
         #[arg(short, long = "swig-id")]
         id: String,
         #[arg(short, long)]
         recipient: String,
-        #[arg(short, long)]
+        #[arg(long)]
         amount: u64,
     },
     /// Toggle a sub-account
     ToggleSubAccount {
         #[arg(short, long)]
         authority_type: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_kp: Option<String>,
         #[arg(short, long = "swig-id")]
         id: String,
@@ -246,15 +246,15 @@ pub enum Command {
     WithdrawFromSubAccount {
         #[arg(short, long)]
         authority_type: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority: Option<String>,
-        #[arg(short, long)]
+        #[arg(long)]
         authority_kp: Option<String>,
         #[arg(short, long = "swig-id")]
         id: String,
         #[arg(short, long)]
         sub_account: String,
-        #[arg(short, long)]
+        #[arg(long)]
         amount: u64,
     },
     /// Generate keypairs for different authority types
-- 
2.43.0


From 4cae5ee3d3a58c0ede8bedfd0ee1383162664624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:55 +0000
Subject: [PATCH 50/72] fix: let the command line's fee payer pay

---
 cli/src/commands.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/cli/src/commands.rs b/cli/src/commands.rs
index 1c438ef..f84959f 100644
--- a/cli/src/commands.rs
+++ b/cli/src/commands.rs
@@ -34,15 +34,21 @@ pub fn create_swig_instance(
     authority_kp: String,
     fee_payer_string: Option<String>,
 ) -> Result<()> {
-    let fee_payer = Keypair::from_base58_string(&fee_payer_string.unwrap_or(authority_kp.clone()));
-    let (client_role, fee_payer) = match authority_type {
+    // The fee payer that was named, or the default one
+    let fee_payer = fee_payer_string
+        .or_else(|| Some(ctx.config.default_authority.fee_payer.clone()))
+        .filter(|fee_payer| !fee_payer.is_empty())
+        .map(|fee_payer| parse_keypair(&fee_payer))
+        .transpose()?;
+    let (client_role, fee_payer, authority_keypair) = match authority_type {
         AuthorityType::Ed25519 => {
-            let authority_kp = Keypair::from_base58_string(&authority_kp);
+            let authority_kp = parse_keypair(&authority_kp)?;
             let authority = Pubkey::from_str(&authority)?;
 
             (
                 Box::new(Ed25519ClientRole::new(authority)) as Box<dyn ClientRole>,
-                authority_kp,
+                fee_payer.unwrap_or_else(|| authority_kp.insecure_clone()),
+                Some(authority_kp),
             )
         },
         AuthorityType::Secp256k1 => {
@@ -74,7 +80,8 @@ pub fn create_swig_instance(
                     eth_pubkey[1..].to_vec().into_boxed_slice(),
                     Box::new(sign_fn),
                 )) as Box<dyn ClientRole>,
-                fee_payer.insecure_clone(),
+                fee_payer.unwrap_or_else(|| ctx.payer.insecure_clone()),
+                None,
             )
         },
         AuthorityType::Secp256r1 => {
@@ -117,7 +124,8 @@ pub fn create_swig_instance(
                     compressed_pubkey,
                     Box::new(sign_fn),
                 )) as Box<dyn ClientRole>,
-                fee_payer.insecure_clone(),
+                fee_payer.unwrap_or_else(|| ctx.payer.insecure_clone()),
+                None,
             )
         },
         _ => return Err(anyhow!("Unsupported authority type")),
@@ -125,8 +133,9 @@ pub fn create_swig_instance(
 
     // Use Box::leak to create static references (similar to interactive mode)
     let fee_payer_static: &mut Keypair = Box::leak(Box::new(fee_payer));
-    let authority_keypair_static: &mut Keypair =
-        Box::leak(Box::new(fee_payer_static.insecure_clone()));
+    let authority_keypair_static: &mut Keypair = Box::leak(Box::new(
+        authority_keypair.unwrap_or_else(|| fee_payer_static.insecure_clone()),
+    ));
 
     let wallet = SwigWallet::new(
         swig_id,
@@ -144,6 +153,14 @@ pub fn create_swig_instance(
     Ok(())
 }
 
+/// Parses a keypair in base58 format
+pub fn parse_keypair(keypair: &str) -> Result<Keypair> {
+    let bytes = bs58::decode(keypair)
+        .into_vec()
+        .map_err(|_| anyhow!("Invalid base58 string for keypair"))?;
+    Keypair::try_from(bytes.as_slice()).map_err(|e| anyhow!("Invalid keypair: {}", e))
+}
+
 pub fn parse_permission_from_json(permission_json: &Value) -> Result<Permission> {
     match permission_json["type"].as_str() {
         Some("all") => Ok(Permission::All),
-- 
2.43.0


From 44bbfd0b1ef08f43cdbdab31cbb46dca6c524684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 51/72] fix: read the keys of authorities on the command line
 as written

---
 cli/src/commands.rs |  2 +-
 cli/src/main.rs     | 29 +++++++++++++++++++++--------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/cli/src/commands.rs b/cli/src/commands.rs
index f84959f..47a4822 100644
--- a/cli/src/commands.rs
+++ b/cli/src/commands.rs
@@ -377,7 +377,7 @@ pub fn run_command_mode(ctx: &mut SwigCliContext, cmd: Command) -> Result<()> {
             ctx.wallet
                 .as_mut()
                 .unwrap()
-                .remove_authority(remove_authority.as_bytes())?;
+                .remove_authority(&crate::parse_authority(&remove_authority)?)?;
             println!("Authority removed successfully!");
             Ok(())
         },
diff --git a/cli/src/main.rs b/cli/src/main.rs
index e8154d5..aeeffa0 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -687,20 +687,20 @@ pub fn format_authority(authority: &str, authority_type: &AuthorityType) -> Resu
                 .map_err(|_| anyhow!("Invalid hex string for Secp256k1 authority"))?;
 
             // For Secp256k1, we expect the uncompressed public key (65 bytes starting with
-            // 0x04) or compressed public key (33 bytes starting with 0x02 or
-            // 0x03)
+            // 0x04, or 64 bytes without this prefix) or compressed public key (33 bytes
+            // starting with 0x02 or 0x03)
             if authority_bytes.len() == 65 && authority_bytes[0] == 0x04 {
                 // Uncompressed format - remove the 0x04 prefix
                 Ok(authority_bytes[1..].to_vec())
-            } else if authority_bytes.len() == 33
-                && (authority_bytes[0] == 0x02 || authority_bytes[0] == 0x03)
+            } else if authority_bytes.len() == 64
+                || (authority_bytes.len() == 33
+                    && (authority_bytes[0] == 0x02 || authority_bytes[0] == 0x03))
             {
-                // Compressed format - remove the prefix
-                Ok(authority_bytes[1..].to_vec())
+                Ok(authority_bytes)
             } else {
                 Err(anyhow!(
-                    "Invalid Secp256k1 public key format - expected 33 bytes (compressed) or 65 \
-                     bytes (uncompressed)"
+                    "Invalid Secp256k1 public key format - expected 33 bytes (compressed) or 64 \
+                     or 65 bytes (uncompressed)"
                 ))
             }
         },
@@ -726,6 +726,19 @@ pub fn format_authority(authority: &str, authority_type: &AuthorityType) -> Resu
     }
 }
 
+/// Parses the key of an existing authority: base58 for Ed25519, hex for
+/// Secp256k1 and Secp256r1.
+pub fn parse_authority(authority: &str) -> Result<Vec<u8>> {
+    [
+        AuthorityType::Ed25519,
+        AuthorityType::Secp256k1,
+        AuthorityType::Secp256r1,
+    ]
+    .iter()
+    .find_map(|authority_type| format_authority(authority, authority_type).ok())
+    .ok_or_else(|| anyhow!("Invalid authority: {}", authority))
+}
+
 fn get_authorities(ctx: &mut SwigCliContext) -> Result<HashMap<String, Vec<u8>>> {
     let swig_pubkey = ctx.wallet.as_ref().unwrap().get_swig_account()?;
 
-- 
2.43.0


From 77142730e66abe959b509fc5e837bc937776f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 52/72] fix: accept the secp256r1 private key that generate
 prints

---
 cli/src/commands.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cli/src/commands.rs b/cli/src/commands.rs
index 47a4822..d162ed8 100644
--- a/cli/src/commands.rs
+++ b/cli/src/commands.rs
@@ -85,14 +85,16 @@ pub fn create_swig_instance(
             )
         },
         AuthorityType::Secp256r1 => {
-            // For Secp256r1, the authority_kp should be a hex string of the DER private key
+            // For Secp256r1, the authority_kp should be a hex string of the DER or PEM
+            // private key
             let clean_authority = authority_kp.trim_start_matches("0x");
             let der_bytes = hex::decode(clean_authority)
                 .map_err(|_| anyhow!("Invalid hex string for Secp256r1 private key"))?;
 
-            // Create an EcKey from the DER bytes
+            // Create an EcKey from the DER or PEM bytes
             let signing_key = EcKey::private_key_from_der(&der_bytes)
-                .map_err(|_| anyhow!("Invalid DER format for Secp256r1 private key"))?;
+                .or_else(|_| EcKey::private_key_from_pem(&der_bytes))
+                .map_err(|_| anyhow!("Invalid DER or PEM format for Secp256r1 private key"))?;
 
             // Get the compressed public key
             let group = EcGroup::from_curve_name(Nid::X9_62_PRIME256V1)
-- 
2.43.0


From 1b37787b129ae987731e7b2873bbdbe58b48627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:10 +0000
Subject: [PATCH 53/72] fix: accept permissions with more than one field on the
 command line

---
 cli/src/commands.rs | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/cli/src/commands.rs b/cli/src/commands.rs
index d162ed8..1e4c3ab 100644
--- a/cli/src/commands.rs
+++ b/cli/src/commands.rs
@@ -163,6 +163,14 @@ pub fn parse_keypair(keypair: &str) -> Result<Keypair> {
     Keypair::try_from(bytes.as_slice()).map_err(|e| anyhow!("Invalid keypair: {}", e))
 }
 
+/// Parses permissions given as JSON objects. The command line is split at
+/// commas, which are also found within the objects, so it is joined first.
+pub fn parse_permissions(permissions: &[String]) -> Result<Vec<Permission>> {
+    let permissions: Vec<Value> = serde_json::from_str(&format!("[{}]", permissions.join(",")))
+        .map_err(|e| anyhow!("Invalid permission JSON: {}", e))?;
+    permissions.iter().map(parse_permission_from_json).collect()
+}
+
 pub fn parse_permission_from_json(permission_json: &Value) -> Result<Permission> {
     match permission_json["type"].as_str() {
         Some("all") => Ok(Permission::All),
@@ -314,14 +322,7 @@ pub fn run_command_mode(ctx: &mut SwigCliContext, cmd: Command) -> Result<()> {
                 return Err(anyhow!("Permissions are required"));
             }
 
-            let parsed_permissions = permissions
-                .iter()
-                .map(|p| {
-                    let permission_value: Value = serde_json::from_str(p)
-                        .map_err(|e| anyhow!("Invalid permission JSON: {}", e))?;
-                    parse_permission_from_json(&permission_value)
-                })
-                .collect::<Result<Vec<_>>>()?;
+            let parsed_permissions = parse_permissions(&permissions)?;
 
             create_swig_instance(
                 ctx,
@@ -860,28 +861,14 @@ pub fn run_command_mode(ctx: &mut SwigCliContext, cmd: Command) -> Result<()> {
                     if permissions.is_empty() {
                         return Err(anyhow!("Permissions are required for ReplaceAll operation"));
                     }
-                    let parsed_permissions = permissions
-                        .iter()
-                        .map(|p| {
-                            let permission_value: Value = serde_json::from_str(p)
-                                .map_err(|e| anyhow!("Invalid permission JSON: {}", e))?;
-                            parse_permission_from_json(&permission_value)
-                        })
-                        .collect::<Result<Vec<_>>>()?;
+                    let parsed_permissions = parse_permissions(&permissions)?;
                     UpdateAuthorityData::ReplaceAll(parsed_permissions)
                 },
                 "AddActions" => {
                     if permissions.is_empty() {
                         return Err(anyhow!("Permissions are required for AddActions operation"));
                     }
-                    let parsed_permissions = permissions
-                        .iter()
-                        .map(|p| {
-                            let permission_value: Value = serde_json::from_str(p)
-                                .map_err(|e| anyhow!("Invalid permission JSON: {}", e))?;
-                            parse_permission_from_json(&permission_value)
-                        })
-                        .collect::<Result<Vec<_>>>()?;
+                    let parsed_permissions = parse_permissions(&permissions)?;
                     UpdateAuthorityData::AddActions(parsed_permissions)
                 },
                 "RemoveActionsByType" => {
-- 
2.43.0


From 31c69c93edcd9c9bab26a3b2624d4f647003ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 54/72] fix: read the sub-account of a permission as an address

---
 cli/src/commands.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/commands.rs b/cli/src/commands.rs
index 1e4c3ab..be2b18f 100644
--- a/cli/src/commands.rs
+++ b/cli/src/commands.rs
@@ -224,7 +224,7 @@ pub fn parse_permission_from_json(permission_json: &Value) -> Result<Permission>
                 .as_str()
                 .ok_or_else(|| anyhow!("Sub-account is required for sub-account permission"))?;
             Ok(Permission::SubAccount {
-                sub_account: sub_account.as_bytes().try_into().unwrap(),
+                sub_account: Pubkey::from_str(sub_account)?.to_bytes(),
             })
         },
         Some("solDestination") => {
-- 
2.43.0


From 5f1613e7a2c958a25063b23dc8565d074806ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 55/72] fix: refuse numbers of permissions that cannot be read

---
 cli/src/commands.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/cli/src/commands.rs b/cli/src/commands.rs
index be2b18f..9e7cabe 100644
--- a/cli/src/commands.rs
+++ b/cli/src/commands.rs
@@ -171,14 +171,25 @@ pub fn parse_permissions(permissions: &[String]) -> Result<Vec<Permission>> {
     permissions.iter().map(parse_permission_from_json).collect()
 }
 
+/// Parses a number of a permission, if it is given
+fn parse_number(json: &Value, field: &str) -> Result<Option<u64>> {
+    json.get(field)
+        .map(|value| {
+            value
+                .as_u64()
+                .ok_or_else(|| anyhow!("{} must be a whole number, not {}", field, value))
+        })
+        .transpose()
+}
+
 pub fn parse_permission_from_json(permission_json: &Value) -> Result<Permission> {
     match permission_json["type"].as_str() {
         Some("all") => Ok(Permission::All),
         Some("programCurated") => Ok(Permission::ProgramCurated),
         Some("sol") => {
-            let amount = permission_json["amount"].as_u64().unwrap_or(1_000_000_000);
+            let amount = parse_number(permission_json, "amount")?.unwrap_or(1_000_000_000);
             let recurring = if let Some(recurring) = permission_json.get("recurring") {
-                let window = recurring["window"].as_u64().unwrap_or(86400);
+                let window = parse_number(recurring, "window")?.unwrap_or(86400);
                 Some(swig_sdk::RecurringConfig::new(window))
             } else {
                 None
@@ -203,11 +214,11 @@ pub fn parse_permission_from_json(permission_json: &Value) -> Result<Permission>
             let target_account = permission_json["targetAccount"].as_str().ok_or_else(|| {
                 anyhow!("Target account is required for program scope permission")
             })?;
-            let numeric_type = permission_json["numericType"].as_u64().unwrap_or(0);
-            let limit = permission_json["limit"].as_u64();
-            let window = permission_json["window"].as_u64();
-            let balance_field_start = permission_json["balanceFieldStart"].as_u64();
-            let balance_field_end = permission_json["balanceFieldEnd"].as_u64();
+            let numeric_type = parse_number(permission_json, "numericType")?.unwrap_or(0);
+            let limit = parse_number(permission_json, "limit")?;
+            let window = parse_number(permission_json, "window")?;
+            let balance_field_start = parse_number(permission_json, "balanceFieldStart")?;
+            let balance_field_end = parse_number(permission_json, "balanceFieldEnd")?;
 
             Ok(Permission::ProgramScope {
                 program_id: Pubkey::from_str(program_id)?,
@@ -231,9 +242,9 @@ pub fn parse_permission_from_json(permission_json: &Value) -> Result<Permission>
             let destination = permission_json["destination"]
                 .as_str()
                 .ok_or_else(|| anyhow!("Destination is required for SOL destination permission"))?;
-            let amount = permission_json["amount"].as_u64().unwrap_or(1_000_000_000);
+            let amount = parse_number(permission_json, "amount")?.unwrap_or(1_000_000_000);
             let recurring = if let Some(recurring) = permission_json.get("recurring") {
-                let window = recurring["window"].as_u64().unwrap_or(86400);
+                let window = parse_number(recurring, "window")?.unwrap_or(86400);
                 Some(swig_sdk::RecurringConfig::new(window))
             } else {
                 None
@@ -251,9 +262,9 @@ pub fn parse_permission_from_json(permission_json: &Value) -> Result<Permission>
             let destination = permission_json["destination"].as_str().ok_or_else(|| {
                 anyhow!("Destination is required for token destination permission")
             })?;
-            let amount = permission_json["amount"].as_u64().unwrap_or(1_000_000_000);
+            let amount = parse_number(permission_json, "amount")?.unwrap_or(1_000_000_000);
             let recurring = if let Some(recurring) = permission_json.get("recurring") {
-                let window = recurring["window"].as_u64().unwrap_or(86400);
+                let window = parse_number(recurring, "window")?.unwrap_or(86400);
                 Some(swig_sdk::RecurringConfig::new(window))
             } else {
                 None
-- 
2.43.0


From f718158e0ae41a50bd67f593c6b4ded1dda99def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:01 +0000
Subject: [PATCH 56/72] fix: report a wallet that cannot be opened

---
 cli/src/commands.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/src/commands.rs b/cli/src/commands.rs
index 9e7cabe..35d647b 100644
--- a/cli/src/commands.rs
+++ b/cli/src/commands.rs
@@ -145,8 +145,7 @@ pub fn create_swig_instance(
         fee_payer_static,
         ctx.rpc_url.clone(),
         Some(authority_keypair_static),
-    )
-    .unwrap();
+    )?;
 
     ctx.wallet = Some(Box::new(wallet));
     ctx.payer = fee_payer_static.insecure_clone();
-- 
2.43.0


From 5fd70f4db6a3989f5815120937eab2b4138a3f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 57/72] fix: display program execution authorities and numeric
 types

---
 rust-sdk/src/wallet.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 0c5674e..66115ce 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -34,7 +34,12 @@ use swig_state::{
         token_recurring_destination_limit::TokenRecurringDestinationLimit,
         token_recurring_limit::TokenRecurringLimit,
     },
-    authority::{self, secp256k1::Secp256k1Authority, AuthorityType},
+    authority::{
+        self,
+        programexec::{session::ProgramExecSessionAuthority, ProgramExecAuthority},
+        secp256k1::Secp256k1Authority,
+        AuthorityType,
+    },
     role::Role,
     sub_account_v2::SubAccountV2,
     swig::{
@@ -987,7 +992,20 @@ impl<'c> SwigWallet<'c> {
                             // For Secp256r1, display the compressed public key directly
                             format!("0x{}", hex::encode(authority))
                         },
-                        _ => todo!(),
+                        // Display the program that vouches for the requests
+                        AuthorityType::ProgramExec => role
+                            .authority
+                            .as_any()
+                            .downcast_ref::<ProgramExecAuthority>()
+                            .map(|authority| Pubkey::from(authority.program_id).to_string())
+                            .unwrap_or_default(),
+                        AuthorityType::ProgramExecSession => role
+                            .authority
+                            .as_any()
+                            .downcast_ref::<ProgramExecSessionAuthority>()
+                            .map(|authority| Pubkey::from(authority.program_id).to_string())
+                            .unwrap_or_default(),
+                        AuthorityType::None => "None".to_string(),
                     }
                 );
 
@@ -1172,9 +1190,10 @@ impl<'c> SwigWallet<'c> {
                     println!(
                         "║ │  │  ├─ Numeric Type: {}",
                         match action.numeric_type {
-                            0 => "U64",
-                            1 => "U128",
-                            2 => "F64",
+                            0 => "U8",
+                            1 => "U32",
+                            2 => "U64",
+                            3 => "U128",
                             _ => "Unknown",
                         }
                     );
-- 
2.43.0


From 35121f4b996de32a57fb68195cd05e671450a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:05 +0000
Subject: [PATCH 58/72] fix: toggle the sub-account of the role that is named

---
 cli/src/commands.rs    |  6 +++++-
 rust-sdk/src/wallet.rs | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/cli/src/commands.rs b/cli/src/commands.rs
index 35d647b..dea3f13 100644
--- a/cli/src/commands.rs
+++ b/cli/src/commands.rs
@@ -564,7 +564,11 @@ pub fn run_command_mode(ctx: &mut SwigCliContext, cmd: Command) -> Result<()> {
                 None,
             )?;
 
-            let sub_account = ctx.wallet.as_ref().unwrap().get_sub_account()?;
+            let sub_account = ctx
+                .wallet
+                .as_ref()
+                .unwrap()
+                .get_sub_account_of_role(sub_account_role_id)?;
             let current_role_id = ctx.wallet.as_ref().unwrap().get_current_role_id()?;
             if let Some(sub_account) = sub_account {
                 ctx.wallet.as_mut().unwrap().toggle_sub_account(
diff --git a/rust-sdk/src/wallet.rs b/rust-sdk/src/wallet.rs
index 66115ce..178f86c 100644
--- a/rust-sdk/src/wallet.rs
+++ b/rust-sdk/src/wallet.rs
@@ -1474,10 +1474,24 @@ impl<'c> SwigWallet<'c> {
     ///
     /// Returns a `Result` containing the sub account or a `SwigError`
     pub fn get_sub_account(&self) -> Result<Option<Pubkey>, SwigError> {
+        self.get_sub_account_of_role(self.get_current_role_id()?)
+    }
+
+    /// Retrieves the sub account of a role if it exists
+    ///
+    /// # Arguments
+    ///
+    /// * `role_id` - The role that owns the sub account
+    ///
+    /// # Returns
+    ///
+    /// Returns a `Result` containing the sub account's public key, or `None` if
+    /// it does not exist, or a `SwigError`
+    pub fn get_sub_account_of_role(&self, role_id: u32) -> Result<Option<Pubkey>, SwigError> {
         let (sub_account, sub_account_bump) = Pubkey::find_program_address(
             &sub_account_seeds(
                 self.instruction_builder.get_swig_id(),
-                &self.get_current_role_id()?.to_le_bytes(),
+                &role_id.to_le_bytes(),
             ),
             &swig_interface::program_id(),
         );
-- 
2.43.0


From 05589607769597b6718274a32238c5b87d1cb757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:21 +0000
Subject: [PATCH 59/72] fix: a keypair that cannot be read does not end the
 interactive client

---
 cli/src/interactive.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index 38bc866..c368cf3 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -26,7 +26,7 @@ use swig_sdk::{
     Secp256k1SessionClientRole, SwigError, SwigWallet,
 };
 
-use crate::SwigCliContext;
+use crate::{commands::parse_keypair, SwigCliContext};
 
 pub fn run_interactive_mode(ctx: &mut SwigCliContext) -> Result<()> {
     println!(
@@ -110,7 +110,7 @@ fn create_wallet_interactive(ctx: &mut SwigCliContext) -> Result<()> {
                 .with_prompt("Enter authority keypair")
                 .interact()?;
 
-            let authority = Keypair::from_base58_string(&authority_keypair);
+            let authority = parse_keypair(&authority_keypair)?;
             let authority_pubkey = authority.pubkey();
             println!("Authority public key: {}", authority_pubkey);
 
@@ -270,7 +270,7 @@ fn create_wallet_interactive(ctx: &mut SwigCliContext) -> Result<()> {
     let fee_payer_str = Password::with_theme(&ColorfulTheme::default())
         .with_prompt("Enter Fee payer keypair (Solana Ed25519 keypair in base58 format)")
         .interact()?;
-    let fee_payer_keypair = Keypair::from_base58_string(&fee_payer_str);
+    let fee_payer_keypair = parse_keypair(&fee_payer_str)?;
 
     let fee_payer_static: &mut Keypair = Box::leak(Box::new(fee_payer_keypair));
 
@@ -615,7 +615,7 @@ fn switch_authority_interactive(ctx: &mut SwigCliContext) -> Result<()> {
 
     let role_id = u32::from_str(&role_id)?;
 
-    let authority = Keypair::from_base58_string(&authority_keypair);
+    let authority = parse_keypair(&authority_keypair)?;
     let authority_pubkey = authority.pubkey();
 
     let client_role: Box<dyn ClientRole> = match authority_type {
@@ -744,7 +744,7 @@ fn switch_authority_interactive(ctx: &mut SwigCliContext) -> Result<()> {
             let fee_payer_kp_str = Password::with_theme(&ColorfulTheme::default())
                 .with_prompt("Enter Fee payer keypair (Solana Ed25519 keypair in base58 format)")
                 .interact()?;
-            let fee_payer_keypair = Keypair::from_base58_string(&fee_payer_kp_str);
+            let fee_payer_keypair = parse_keypair(&fee_payer_kp_str)?;
 
             Box::new(Secp256r1SessionClientRole::new(
                 create_session_authority,
-- 
2.43.0


From 2a304269f2ea4d148ef8d1883c6cd2d832f9bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 60/72] fix: the interactive client uses the configured cluster

---
 cli/src/interactive.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index c368cf3..54e8b99 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -288,10 +288,9 @@ fn create_wallet_interactive(ctx: &mut SwigCliContext) -> Result<()> {
         swig_id,
         client_role,
         fee_payer_static,
-        "http://localhost:8899".to_string(),
+        ctx.rpc_url.clone(),
         authority_keypair_static,
-    )
-    .unwrap();
+    )?;
 
     wallet.display_swig()?;
 
-- 
2.43.0


From 70ec3ee77152c11498d4c8884c4ec657fb790303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:29 +0000
Subject: [PATCH 61/72] fix: a wallet created interactively signs with its
 authority's keypair

---
 cli/src/interactive.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index 54e8b99..ff30486 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -104,6 +104,11 @@ fn create_wallet_interactive(ctx: &mut SwigCliContext) -> Result<()> {
 
     let authority_type = get_authority_type()?;
 
+    // For Secp256k1 and Secp256r1 authorities, we don't need the authority keypair
+    // as a transaction signer since the signature is provided in the
+    // instruction data
+    let mut authority_keypair_static: Option<&Keypair> = None;
+
     let client_role = match authority_type {
         AuthorityType::Ed25519 => {
             let authority_keypair = Password::with_theme(&ColorfulTheme::default())
@@ -113,6 +118,7 @@ fn create_wallet_interactive(ctx: &mut SwigCliContext) -> Result<()> {
             let authority = parse_keypair(&authority_keypair)?;
             let authority_pubkey = authority.pubkey();
             println!("Authority public key: {}", authority_pubkey);
+            authority_keypair_static = Some(Box::leak(Box::new(authority)));
 
             Box::new(Ed25519ClientRole::new(authority_pubkey)) as Box<dyn ClientRole>
         },
@@ -274,16 +280,6 @@ fn create_wallet_interactive(ctx: &mut SwigCliContext) -> Result<()> {
 
     let fee_payer_static: &mut Keypair = Box::leak(Box::new(fee_payer_keypair));
 
-    // For Secp256k1 and Secp256r1 authorities, we don't need the authority keypair
-    // as a transaction signer since the signature is provided in the
-    // instruction data
-    let authority_keypair_static: Option<&Keypair> = match authority_type {
-        AuthorityType::Ed25519 | AuthorityType::Ed25519Session => {
-            Some(Box::leak(Box::new(fee_payer_static.insecure_clone())))
-        },
-        _ => None,
-    };
-
     let wallet = SwigWallet::new(
         swig_id,
         client_role,
-- 
2.43.0


From d63ecc66b1249d668f38e3eab2c2f78324bcd22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 62/72] fix: interactive create offers Ed25519 session
 authorities

---
 cli/src/interactive.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index ff30486..5ac6aec 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -110,7 +110,7 @@ fn create_wallet_interactive(ctx: &mut SwigCliContext) -> Result<()> {
     let mut authority_keypair_static: Option<&Keypair> = None;
 
     let client_role = match authority_type {
-        AuthorityType::Ed25519 => {
+        AuthorityType::Ed25519 | AuthorityType::Ed25519Session => {
             let authority_keypair = Password::with_theme(&ColorfulTheme::default())
                 .with_prompt("Enter authority keypair")
                 .interact()?;
@@ -120,7 +120,18 @@ fn create_wallet_interactive(ctx: &mut SwigCliContext) -> Result<()> {
             println!("Authority public key: {}", authority_pubkey);
             authority_keypair_static = Some(Box::leak(Box::new(authority)));
 
-            Box::new(Ed25519ClientRole::new(authority_pubkey)) as Box<dyn ClientRole>
+            if authority_type == AuthorityType::Ed25519 {
+                Box::new(Ed25519ClientRole::new(authority_pubkey)) as Box<dyn ClientRole>
+            } else {
+                let create_session_authority = CreateEd25519SessionAuthority::new(
+                    authority_pubkey.to_bytes(),
+                    [0; 32], // session key
+                    100,     // max session length
+                );
+                Box::new(swig_sdk::Ed25519SessionClientRole::new(
+                    create_session_authority,
+                )) as Box<dyn ClientRole>
+            }
         },
         AuthorityType::Secp256k1 | AuthorityType::Secp256k1Session => {
             let authority_keypair = Password::with_theme(&ColorfulTheme::default())
@@ -270,7 +281,7 @@ fn create_wallet_interactive(ctx: &mut SwigCliContext) -> Result<()> {
                 Box::new(sign_fn),
             )) as Box<dyn ClientRole>
         },
-        _ => todo!(),
+        _ => return Err(anyhow!("Unsupported authority type")),
     };
 
     let fee_payer_str = Password::with_theme(&ColorfulTheme::default())
-- 
2.43.0


From 1b749dc26554b5a9f393cf963ef6f6667cc0df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:05 +0000
Subject: [PATCH 63/72] fix: an interactive transfer spends from the wallet

---
 cli/src/interactive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index 5ac6aec..ab8c386 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -796,7 +796,7 @@ fn transfer_interactive(ctx: &mut SwigCliContext) -> Result<()> {
         .interact_text()?;
 
     let transfer_instruction = transfer(
-        &ctx.wallet.as_ref().unwrap().get_swig_account()?,
+        &ctx.wallet.as_ref().unwrap().get_swig_wallet_address()?,
         &Pubkey::from_str(&recipient)?,
         amount,
     );
-- 
2.43.0


From 1a482ab349bf47b92510d181c63980e2fc43961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 64/72] fix: leaving the sub-account menu does not end the
 client

---
 cli/src/interactive.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index ab8c386..d5ba1db 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -1117,6 +1117,7 @@ pub fn sub_accounts_interactive(ctx: &mut SwigCliContext) -> Result<()> {
             toggle_sub_account_interactive(ctx, sub_account_role_id)?;
         },
         3 => withdraw_from_sub_account_interactive(ctx)?,
+        4 => {},
         _ => unreachable!(),
     }
     Ok(())
-- 
2.43.0


From f5b063f41c034bd7d9f2b3edc225f4c324035ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 65/72] fix: a refused transfer from a sub-account does not end
 the interactive client with a panic

---
 cli/src/interactive.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index d5ba1db..6105dab 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -1159,8 +1159,7 @@ fn transfer_from_sub_account_interactive(ctx: &mut SwigCliContext) -> Result<()>
             .wallet
             .as_mut()
             .unwrap()
-            .sign_with_sub_account(vec![transfer_ix], None)
-            .unwrap();
+            .sign_with_sub_account(vec![transfer_ix], None)?;
 
         println!("Signature: {}", signature);
     } else {
-- 
2.43.0


From 65b1f984613363f8c0f5e827af8ba3e6272e62b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:43 +0000
Subject: [PATCH 66/72] fix: an authority switched to interactively can sign

---
 cli/src/interactive.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index 6105dab..5c6c5ea 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -615,14 +615,22 @@ fn switch_authority_interactive(ctx: &mut SwigCliContext) -> Result<()> {
         _ => unreachable!(),
     };
 
-    let authority_keypair = Password::with_theme(&ColorfulTheme::default())
-        .with_prompt("Enter authority keypair")
-        .interact()?;
-
     let role_id = u32::from_str(&role_id)?;
 
-    let authority = parse_keypair(&authority_keypair)?;
-    let authority_pubkey = authority.pubkey();
+    // Only Ed25519 authorities sign the transaction with a keypair
+    let authority = match authority_type {
+        AuthorityType::Ed25519 | AuthorityType::Ed25519Session => {
+            let authority_keypair = Password::with_theme(&ColorfulTheme::default())
+                .with_prompt("Enter authority keypair")
+                .interact()?;
+            Some(parse_keypair(&authority_keypair)?)
+        },
+        _ => None,
+    };
+    let authority_pubkey = authority
+        .as_ref()
+        .map(|authority| authority.pubkey())
+        .unwrap_or_default();
 
     let client_role: Box<dyn ClientRole> = match authority_type {
         AuthorityType::Ed25519 => {
@@ -762,13 +770,17 @@ fn switch_authority_interactive(ctx: &mut SwigCliContext) -> Result<()> {
         },
     };
 
-    // Store the authority keypair in the context
-    ctx.authority = Some(authority.insecure_clone());
+    let authority_static: Option<&Keypair> = authority
+        .as_ref()
+        .map(|authority| &*Box::leak(Box::new(authority.insecure_clone())));
 
     ctx.wallet
         .as_mut()
         .unwrap()
-        .switch_authority(role_id, client_role, None)?;
+        .switch_authority(role_id, client_role, authority_static)?;
+
+    // Store the authority keypair in the context
+    ctx.authority = authority;
     Ok(())
 }
 
-- 
2.43.0


From 5062c563dc5793e59629f4c20784fa5d9b0c917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:20 +0000
Subject: [PATCH 67/72] fix: wallets with a program execution authority can be
 managed interactively

---
 cli/src/interactive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index 5c6c5ea..a495fdc 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -1315,7 +1315,8 @@ pub fn get_authorities(ctx: &mut SwigCliContext) -> Result<HashMap<String, Vec<u
                     let authority_hex = hex::encode(authority);
                     authorities.insert(format!("0x{}", authority_hex), authority.to_vec());
                 },
-                _ => todo!(),
+                // Program execution authorities are not named by a key
+                _ => {},
             }
         }
     }
-- 
2.43.0


From 6f77efabaccf933dc632912261244a642a7520f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:41 +0000
Subject: [PATCH 68/72] fix: the interactive client knows Token-2022

---
 cli/src/interactive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index a495fdc..437cf7e 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -1034,7 +1034,7 @@ pub fn get_permissions_interactive() -> Result<Vec<Permission>> {
 
                 let program_id = match program_idx {
                     0 => spl_token::ID,
-                    1 => todo!("Token2022 program ID"), // Add Token2022 program ID when available
+                    1 => Pubkey::from_str("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb")?,
                     _ => unreachable!(),
                 };
 
-- 
2.43.0


From 2b62b3f1688e6e247cdb07784b9c18b178efd9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:24 +0000
Subject: [PATCH 69/72] fix: the interactive client can disable a sub-account,
 of any role

---
 cli/src/interactive.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index 437cf7e..e28d806 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -1210,7 +1210,16 @@ fn toggle_sub_account_interactive(
 ) -> Result<()> {
     println!("\n{}", "Toggling sub-account...".bright_blue().bold());
 
-    let sub_account = ctx.wallet.as_mut().unwrap().get_sub_account()?;
+    let enabled = Confirm::with_theme(&ColorfulTheme::default())
+        .with_prompt("Enable the sub-account?")
+        .default(true)
+        .interact()?;
+
+    let sub_account = ctx
+        .wallet
+        .as_mut()
+        .unwrap()
+        .get_sub_account_of_role(sub_account_role_id)?;
 
     let current_role_id = ctx.wallet.as_ref().unwrap().get_current_role_id()?;
 
@@ -1219,8 +1228,10 @@ fn toggle_sub_account_interactive(
             sub_account,
             current_role_id,
             sub_account_role_id,
-            true,
+            enabled,
         )?;
+    } else {
+        println!("Sub-account does not exist!");
     }
 
     Ok(())
-- 
2.43.0


From 8badd2b9447ae7b235ac6f23494f7c11fa3d0497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 70/72] fix: a stake permission given interactively has the
 limit that is typed

---
 cli/src/interactive.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/cli/src/interactive.rs b/cli/src/interactive.rs
index e28d806..a830340 100644
--- a/cli/src/interactive.rs
+++ b/cli/src/interactive.rs
@@ -1078,9 +1078,28 @@ pub fn get_permissions_interactive() -> Result<Vec<Permission>> {
             11 => Permission::SubAccount {
                 sub_account: [0; 32],
             },
-            12 => Permission::Stake {
-                amount: 0,
-                recurring: None,
+            12 => {
+                // Get stake amount
+                let amount: u64 = Input::with_theme(&ColorfulTheme::default())
+                    .with_prompt("Enter stake amount limit (in lamports)")
+                    .interact_text()?;
+
+                // Check if recurring
+                let is_recurring = Confirm::with_theme(&ColorfulTheme::default())
+                    .with_prompt("Make this a recurring limit?")
+                    .default(false)
+                    .interact()?;
+
+                let recurring = if is_recurring {
+                    let window: u64 = Input::with_theme(&ColorfulTheme::default())
+                        .with_prompt("Enter time window in slots")
+                        .interact_text()?;
+                    Some(RecurringConfig::new(window))
+                } else {
+                    None
+                };
+
+                Permission::Stake { amount, recurring }
             },
             13 => Permission::StakeAll,
             _ => unreachable!(),
-- 
2.43.0


From ad800016ff31073c82a5fb739d3a0e947cd7287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:11 +0000
Subject: [PATCH 71/72] fix: the cost of a request does not grow with every
 role ever made

---
 program/src/util/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/program/src/util/mod.rs b/program/src/util/mod.rs
index ef3b464..d298d70 100644
--- a/program/src/util/mod.rs
+++ b/program/src/util/mod.rs
@@ -26,7 +26,7 @@ use swig_state::{
     authority::AuthorityType,
     constants::PROGRAM_SCOPE_BYTE_SIZE,
     read_numeric_field,
-    role::RoleMut,
+    role::{Position, RoleMut},
     swig::{Swig, SwigWithRoles},
     Transmutable,
 };
@@ -73,7 +73,18 @@ impl ProgramScopeCache {
         let mut cache = Self::new();
 
         // Iterate through all roles and their program scopes
-        for role_id in 0..swig_with_roles.state.role_counter {
+        // (not through all role IDs ever handed out: those only grow)
+        let mut role_cursor = 0;
+        for _ in 0..swig_with_roles.state.roles {
+            let header_end = role_cursor + Position::LEN;
+            let Some(header) = data[Swig::LEN..].get(role_cursor..header_end) else {
+                break;
+            };
+            let Ok(position) = (unsafe { Position::load_unchecked(header) }) else {
+                break;
+            };
+            let role_id = position.id();
+            role_cursor = position.boundary() as usize;
             if let Ok(Some(role)) = swig_with_roles.get_role(role_id) {
                 let mut cursor = 0;
                 while cursor < role.actions.len() {
-- 
2.43.0


From f06b56ee1db156ef00bcde5a0d098a90df053e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:12 +0000
Subject: [PATCH 72/72] fix: full rights reach sub-accounts of late roles
 without trying every role id

---
 .../actions/withdraw_from_sub_account_v1.rs   | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/program/src/actions/withdraw_from_sub_account_v1.rs b/program/src/actions/withdraw_from_sub_account_v1.rs
index f40eaa2..4abd783 100644
--- a/program/src/actions/withdraw_from_sub_account_v1.rs
+++ b/program/src/actions/withdraw_from_sub_account_v1.rs
@@ -224,25 +224,43 @@ pub fn withdraw_from_sub_account_v1(
         (action.role_id, action.bump)
     } else {
         // For All/ManageAuthority cases without SubAccount action, we need to find the
-        // role that created this sub-account: try every role ID handed out so far
-        // (roles that were removed since included) to see which one matches the
-        // given sub-account address
-        let mut found_role_id = None;
-        let mut found_bump = None;
-
-        for potential_role_id in 0u32..swig.role_counter {
-            let role_id_bytes = potential_role_id.to_le_bytes();
+        // role that created this sub-account: try the roles there are first, then
+        // every role ID handed out so far (roles that were removed since included)
+        let bump_for = |role_id: u32| {
+            let role_id_bytes = role_id.to_le_bytes();
             let sub_account_seeds = swig_state::swig::sub_account_seeds(&swig.id, &role_id_bytes);
             let (derived_address, bump) =
                 pinocchio::pubkey::find_program_address(&sub_account_seeds, &crate::ID);
+            (derived_address == *ctx.accounts.sub_account.key()).then_some(bump)
+        };
+        let mut found_role_id = None;
+        let mut found_bump = None;
 
-            if derived_address == *ctx.accounts.sub_account.key() {
-                found_role_id = Some(potential_role_id);
+        let mut role_cursor = 0;
+        for _ in 0..swig.roles {
+            let header_end = role_cursor + Position::LEN;
+            let Some(header) = swig_roles.get(role_cursor..header_end) else {
+                break;
+            };
+            let position = unsafe { Position::load_unchecked(header)? };
+            role_cursor = position.boundary() as usize;
+            if let Some(bump) = bump_for(position.id()) {
+                found_role_id = Some(position.id());
                 found_bump = Some(bump);
                 break;
             }
         }
 
+        if found_role_id.is_none() {
+            for potential_role_id in 0u32..swig.role_counter {
+                if let Some(bump) = bump_for(potential_role_id) {
+                    found_role_id = Some(potential_role_id);
+                    found_bump = Some(bump);
+                    break;
+                }
+            }
+        }
+
         match (found_role_id, found_bump) {
             (Some(role_id), Some(bump)) => (role_id, bump),
             _ => {
-- 
2.43.0

