From c1daa6f8a0344b0596134deee22f4bc3d2db2a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 1/7] fix: refuse to wrap from the escrow itself

With a permanent delegate on the unwrapped mint, the escrow could be passed as
the account to wrap: the transfer from the escrow to itself deposits nothing,
but the full amount of wrapped tokens was minted, leaving them unbacked.
---
 program/src/processor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index c0a41c8..d71407c 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -240,6 +240,12 @@ pub fn process_wrap(accounts: &[AccountInfo], amount: u64) -> ProgramResult {
         Err(TokenWrapError::EscrowMismatch)?
     }
 
+    // A transfer from the escrow to itself (which a permanent delegate could sign
+    // for) deposits nothing, so nothing may be minted against it
+    if unwrapped_token_account.key == unwrapped_escrow.key {
+        Err(ProgramError::InvalidArgument)?
+    }
+
     {
         let escrow_data = unwrapped_escrow.try_borrow_data()?;
         let escrow_account = PodStateWithExtensions::<PodAccount>::unpack(&escrow_data)?;
-- 
2.43.0


From 5ad4edec1b2046ba406adca8f71ba784140d2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 2/7] fix: refuse to unwrap to the escrow itself

Naming the escrow as the recipient burned the holder's wrapped tokens while the
unwrapped tokens stayed in the escrow, with no claim on them left.
---
 program/src/processor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index d71407c..8c31b2d 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -363,6 +363,12 @@ pub fn process_unwrap(accounts: &[AccountInfo], amount: u64) -> ProgramResult {
         Err(TokenWrapError::EscrowMismatch)?
     }
 
+    // A transfer from the escrow to itself releases nothing, so the holder's
+    // wrapped tokens may not be burned for it
+    if recipient_unwrapped_token.key == unwrapped_escrow.key {
+        Err(ProgramError::InvalidArgument)?
+    }
+
     // Burn wrapped tokens
 
     let multisig_signer_keys = extract_multisig_accounts(transfer_authority, additional_accounts)?
-- 
2.43.0


From 00a837b7badb4bf8673dcbb168a4accfbe9d2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 3/7] fix: sync metadata of verified collections to SPL Token

Metaplex refuses to create or update an unverified record with a collection
marked verified, so syncing from any mint in a verified collection failed, and
so did every sync after the collection authority verified the wrapped mint's
own record. Copy the collection as unverified, keeping only a verification made
on the record itself.
---
 program/src/metaplex.rs  |  9 ++++++---
 program/src/processor.rs | 15 +++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/program/src/metaplex.rs b/program/src/metaplex.rs
index 60d3dd4..89a55f8 100644
--- a/program/src/metaplex.rs
+++ b/program/src/metaplex.rs
@@ -140,9 +140,12 @@ pub fn token_2022_metadata_to_metaplex(
                     .map_err(|_| ProgramError::InvalidAccountData)?;
             }
             "collection" => {
-                collection = Some(
-                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?,
-                );
+                let mut deserialized_collection: MetaplexCollection =
+                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?;
+                // Likewise, only the collection authority can verify the wrapped mint's
+                // membership, and Metaplex refuses an unverified item claiming otherwise.
+                deserialized_collection.verified = false;
+                collection = Some(deserialized_collection);
             }
             "uses" => {
                 uses = Some(
diff --git a/program/src/processor.rs b/program/src/processor.rs
index 8c31b2d..ce33512 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -752,7 +752,7 @@ pub fn process_sync_metadata_to_spl_token(accounts: &[AccountInfo]) -> ProgramRe
     let authority_signer_seeds =
         get_wrapped_mint_authority_signer_seeds(wrapped_mint_info.key, &authority_bump_seed);
 
-    let new_metadata = token_2022_metadata_to_metaplex(&unwrapped_metadata)?;
+    let mut new_metadata = token_2022_metadata_to_metaplex(&unwrapped_metadata)?;
 
     // If the Metaplex metadata account is uninitialized, create a new one. The user
     // is expected to have pre-funded the wrapped_mint_authority PDA. This program
@@ -785,7 +785,18 @@ pub fn process_sync_metadata_to_spl_token(accounts: &[AccountInfo]) -> ProgramRe
             &[&authority_signer_seeds],
         )?;
     } else {
-        // The Metaplex metadata account is initialized, so update the fields
+        // The Metaplex metadata account is initialized, so update the fields. Metaplex
+        // refuses to drop a verification made by the collection authority on the
+        // wrapped mint's own record, so that is kept as it is.
+        if let Some(collection) = &mut new_metadata.collection {
+            let current =
+                MetaplexMetadata::safe_deserialize(&metaplex_metadata_info.try_borrow_data()?)
+                    .map_err(|_| ProgramError::InvalidAccountData)?;
+            collection.verified = current
+                .collection
+                .is_some_and(|c| c.verified && c.key == collection.key);
+        }
+
         let update_ix = UpdateMetadataAccountV2 {
             metadata: *metaplex_metadata_info.key,
             update_authority: *wrapped_mint_authority_info.key,
-- 
2.43.0


From add32b57febfc5a3595b6ca2c900736606523417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 4/7] fix: report a failed dry run as a failure

---
 clients/cli/src/common.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/clients/cli/src/common.rs b/clients/cli/src/common.rs
index bdf2524..7dde453 100644
--- a/clients/cli/src/common.rs
+++ b/clients/cli/src/common.rs
@@ -58,13 +58,18 @@ pub async fn process_transaction(
                     println!("    {}", log);
                 }
             }
+        }
+
+        if let Some(err) = simulation_data.value.err {
+            return Err(format!("Simulation failed: {}", err).into());
+        }
 
-            println!(
+        match simulation_data.value.units_consumed {
+            Some(units_consumed) if config.verbose() => println!(
                 "\nSimulation succeeded, consumed {} compute units",
-                simulation_data.value.units_consumed.unwrap()
-            );
-        } else {
-            println_display(config, "Simulation succeeded".to_string());
+                units_consumed
+            ),
+            _ => println_display(config, "Simulation succeeded".to_string()),
         }
 
         Ok(None)
-- 
2.43.0


From f3b75888e02fbc9e41b665b4b2239ac919583193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 5/7] fix: create an escrow whose address only holds lamports,
 and fail on a failed lookup

---
 clients/cli/src/create_escrow_account.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/clients/cli/src/create_escrow_account.rs b/clients/cli/src/create_escrow_account.rs
index 7ba2a2e..e05e3d8 100644
--- a/clients/cli/src/create_escrow_account.rs
+++ b/clients/cli/src/create_escrow_account.rs
@@ -119,8 +119,15 @@ pub async fn command_create_escrow_account(
         &args.wrapped_token_program,
     );
 
-    match rpc_client.get_account(&escrow_account_address).await {
-        Ok(_) => {
+    // A failed lookup says nothing about the account, and an account still held
+    // by the system program has only been sent lamports
+    let escrow_account = rpc_client
+        .get_account_with_commitment(&escrow_account_address, rpc_client.commitment())
+        .await?
+        .value
+        .filter(|account| !solana_system_interface::program::check_id(&account.owner));
+    match escrow_account {
+        Some(_) => {
             if args.idempotent {
                 println_display(
                     config,
@@ -135,7 +142,7 @@ pub async fn command_create_escrow_account(
                 );
             }
         }
-        Err(_) => {
+        None => {
             instructions.push(create_associated_token_account(
                 &payer.pubkey(),
                 &wrapped_mint_authority,
-- 
2.43.0


From 7789733c97f502118e59e53ca35ae8e5dd0b90ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:01 +0000
Subject: [PATCH 6/7] fix: do not fund accounts again when looking them up
 fails

---
 clients/cli/src/create_mint.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/clients/cli/src/create_mint.rs b/clients/cli/src/create_mint.rs
index 3c02fae..3b82037 100644
--- a/clients/cli/src/create_mint.rs
+++ b/clients/cli/src/create_mint.rs
@@ -115,11 +115,11 @@ pub async fn command_create_mint(config: &Config, args: CreateMintArgs) -> Comma
     let mut instructions: Vec<Instruction> = Vec::new();
 
     // Fund the wrapped mint account if it doesn't exist or is insufficiently funded
-    let wrapped_mint_account = rpc_client.get_account(&wrapped_mint_address).await;
-    let wrapped_mint_lamports = match wrapped_mint_account {
-        Ok(account) => account.lamports,
-        Err(_) => 0,
-    };
+    let wrapped_mint_account = rpc_client
+        .get_account_with_commitment(&wrapped_mint_address, rpc_client.commitment())
+        .await?
+        .value;
+    let wrapped_mint_lamports = wrapped_mint_account.map_or(0, |account| account.lamports);
 
     let mint_size = if args.wrapped_token_program == spl_token_2022_interface::id() {
         DefaultToken2022Customizer::get_token_2022_mint_space()?
@@ -147,11 +147,11 @@ pub async fn command_create_mint(config: &Config, args: CreateMintArgs) -> Comma
     }
 
     // Fund the backpointer account if it doesn't exist or is insufficiently funded
-    let backpointer_account = rpc_client.get_account(&wrapped_backpointer_address).await;
-    let backpointer_lamports = match backpointer_account {
-        Ok(account) => account.lamports,
-        Err(_) => 0,
-    };
+    let backpointer_account = rpc_client
+        .get_account_with_commitment(&wrapped_backpointer_address, rpc_client.commitment())
+        .await?
+        .value;
+    let backpointer_lamports = backpointer_account.map_or(0, |account| account.lamports);
 
     let backpointer_rent = rpc_client
         .get_minimum_balance_for_rent_exemption(std::mem::size_of::<
-- 
2.43.0


From 7a172a30a07e997ec2d9f16e2dd19afab73d2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 7/7] fix: create an escrow whose address only holds lamports
 in the JavaScript client

Decoding such an account as a token account made createEscrowAccount throw.
---
 clients/js/src/utilities.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/clients/js/src/utilities.ts b/clients/js/src/utilities.ts
index 6ac5e32..1f00735 100644
--- a/clients/js/src/utilities.ts
+++ b/clients/js/src/utilities.ts
@@ -1,7 +1,7 @@
 import { getCreateAccountInstruction } from '@solana-program/system';
 import { getInitializeAccountInstruction as initializeToken, TOKEN_PROGRAM_ADDRESS } from '@solana-program/token';
 import {
-    fetchMaybeToken,
+    decodeToken,
     findAssociatedTokenPda,
     getCreateAssociatedTokenInstruction,
     getTokenDecoder,
@@ -107,9 +107,10 @@ export async function createEscrowAccount({
         tokenProgram: unwrappedTokenProgram,
     });
 
-    const escrowResult = await fetchMaybeToken(rpc, escrowAta);
-    if (escrowResult.exists) {
-        return { kind: 'already_exists', account: escrowResult };
+    // Lamports alone do not make an escrow, it only exists once the token program owns it
+    const escrowAccount = await fetchEncodedAccount(rpc, escrowAta);
+    if (escrowAccount.exists && escrowAccount.programAddress === unwrappedTokenProgram) {
+        return { kind: 'already_exists', account: decodeToken(escrowAccount) };
     }
 
     const ix = getCreateAssociatedTokenInstruction({
-- 
2.43.0

