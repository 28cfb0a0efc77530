From 6866036caa88d9ba89c18849bf2643f209306ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:36 +0000
Subject: [PATCH 01/17] fix: let initialization proceed when the vault token
 account already exists

Anyone can create the instance's associated ORCA account ahead of time, which
made Initialize fail forever. Accept an existing account when it is the token
account it is about to create; the address is verified further below.
---
 solana-program/src/instructions/initialize.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/solana-program/src/instructions/initialize.rs b/solana-program/src/instructions/initialize.rs
index 2d4e2cc..e8fd3de 100644
--- a/solana-program/src/instructions/initialize.rs
+++ b/solana-program/src/instructions/initialize.rs
@@ -1,7 +1,7 @@
 use crate::{
     assertions::account::{
         assert_account_address, assert_account_owner, assert_account_role, assert_account_seeds,
-        assert_external_account_data, AccountRole,
+        assert_external_account_data, make_owner_token_account_assertions, AccountRole,
     },
     cpi::token::{TokenMint, ORCA_MINT_ID, XORCA_MINT_ID},
     error::ErrorCode,
@@ -93,7 +93,17 @@ pub fn process_instruction(accounts: &[AccountInfo], cool_down_period_s: &i64) -
 
     // 7. Vault Account Assertions
     assert_account_role(vault_account, &[AccountRole::Writable])?;
-    assert_account_owner(vault_account, &SYSTEM_PROGRAM_ID)?;
+    // Anyone can create the vault ATA ahead of time, so an existing one must not block initialization
+    if vault_account.is_owned_by(&SPL_TOKEN_PROGRAM_ID) {
+        make_owner_token_account_assertions(
+            vault_account,
+            state_account,
+            orca_mint_account,
+            true,
+        )?;
+    } else {
+        assert_account_owner(vault_account, &SYSTEM_PROGRAM_ID)?;
+    }
 
     // 8. Token Program Account Assertions
     assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID)?;
-- 
2.43.0


From e09d478b5de884f81b524988183c8702fa49eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:53 +0000
Subject: [PATCH 02/17] fix: list a staker's claims even when someone funded an
 unused claim address

Anyone can send lamports to the address a claim would have. The system account
this leaves there is not a PendingWithdraw; decoding it failed the whole search.
---
 rust-client/src/utils/mod.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index 47bcbba..570b250 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -1,7 +1,7 @@
-use crate::generated::accounts::{fetch_all_maybe_pending_withdraw, fetch_state};
-use crate::generated::shared;
+use crate::generated::accounts::fetch_state;
 use crate::{
     find_orca_vault_address, find_pending_withdraw_pda, find_state_address, PendingWithdraw, State,
+    XORCA_STAKING_PROGRAM_ID,
 };
 use anyhow::Context;
 use solana_client::rpc_client::RpcClient;
@@ -90,16 +90,18 @@ pub fn fetch_pending_withdraws_for_staker(
     }
 
     // Fetch all accounts (including non-existent ones)
-    let maybe_accounts = fetch_all_maybe_pending_withdraw(rpc, &addresses)?;
+    let accounts = rpc
+        .get_multiple_accounts(&addresses)
+        .map_err(|e| std::io::Error::other(e.to_string()))?;
 
-    // Filter out non-existent accounts and extract the data
-    let pending_withdraws: Vec<PendingWithdraw> = maybe_accounts
-        .into_iter()
-        .filter_map(|maybe_account| match maybe_account {
-            shared::MaybeAccount::Exists(decoded) => Some(decoded.data),
-            shared::MaybeAccount::NotFound(_) => None,
-        })
-        .collect();
+    // Filter out non-existent accounts, and addresses that merely received lamports, and extract
+    // the data
+    let mut pending_withdraws = Vec::new();
+    for account in accounts.into_iter().flatten() {
+        if account.owner == XORCA_STAKING_PROGRAM_ID {
+            pending_withdraws.push(PendingWithdraw::from_bytes(&account.data)?);
+        }
+    }
 
     Ok(pending_withdraws)
 }
-- 
2.43.0


From f35a375bd5139bacf9a9ee1f37ff55e14f4bb702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:53 +0000
Subject: [PATCH 03/17] fix: search more than 100 claim indices in several
 requests

RPC nodes refuse getMultipleAccounts with more than 100 addresses, so every
search limit from 101 on failed.
---
 rust-client/src/utils/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index 570b250..f92537a 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -12,6 +12,8 @@ use spl_token_interface::state::{Account, Mint};
 use std::str::FromStr;
 
 pub const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH: u8 = 15;
+/// The number of accounts an RPC node returns at most per request
+const MAX_ACCOUNTS_PER_REQUEST: usize = 100;
 pub const ORCA_MINT_ADDRESS: &str = "orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE";
 pub const XORCA_MINT_ADDRESS: &str = "xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N";
 pub const TOKEN_PROGRAM_ADDRESS: &str = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA";
@@ -90,9 +92,13 @@ pub fn fetch_pending_withdraws_for_staker(
     }
 
     // Fetch all accounts (including non-existent ones)
-    let accounts = rpc
-        .get_multiple_accounts(&addresses)
-        .map_err(|e| std::io::Error::other(e.to_string()))?;
+    let mut accounts = Vec::new();
+    for chunk in addresses.chunks(MAX_ACCOUNTS_PER_REQUEST) {
+        accounts.extend(
+            rpc.get_multiple_accounts(chunk)
+                .map_err(|e| std::io::Error::other(e.to_string()))?,
+        );
+    }
 
     // Filter out non-existent accounts, and addresses that merely received lamports, and extract
     // the data
-- 
2.43.0


From a1b8025555121960994b76e218294600a7cf5141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:53 +0000
Subject: [PATCH 04/17] fix: take the exchange rate from a single moment

State, vault and mint were read by three requests. An operation between them
made the rate one the pool never had, or the call fail.
---
 rust-client/src/utils/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index f92537a..13f02e4 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -178,13 +178,29 @@ pub fn fetch_xorca_mint_supply(rpc: &RpcClient) -> Result<u64, anyhow::Error> {
 /// # Errors
 /// Returns an error if any of the required data cannot be fetched
 pub fn fetch_staking_exchange_rate(rpc: &RpcClient) -> Result<StakingExchangeRate, anyhow::Error> {
-    let state = fetch_state_account_data(rpc)?;
-    let vault = fetch_vault_state(rpc)?;
+    let (state_address, _) = find_state_address()?;
+    let token_program = Pubkey::from_str(TOKEN_PROGRAM_ADDRESS)?;
+    let orca_mint = Pubkey::from_str(ORCA_MINT_ADDRESS)?;
+    let (vault_address, _) = find_orca_vault_address(&state_address, &token_program, &orca_mint)?;
+    let xorca_mint = Pubkey::from_str(XORCA_MINT_ADDRESS)?;
+
+    // One request, so that all three accounts are from the same moment
+    let addresses = [state_address, vault_address, xorca_mint];
+    let accounts = rpc.get_multiple_accounts(&addresses)?;
+    let data = |i: usize| {
+        accounts
+            .get(i)
+            .and_then(|account| account.as_ref())
+            .map(|account| account.data.as_slice())
+            .with_context(|| format!("Account not found: {}", addresses[i]))
+    };
+    let state = State::from_bytes(data(0)?)?;
+    let vault = Account::unpack(data(1)?)?;
     let numerator = vault
         .amount
         .checked_sub(state.escrowed_orca_amount)
         .with_context(|| "Vault amount is less than escrowed amount")?;
-    let denominator = fetch_xorca_mint_supply(rpc)?;
+    let denominator = Mint::unpack(data(2)?)?.supply;
 
     Ok(StakingExchangeRate {
         numerator,
-- 
2.43.0


From 0298b9c7b9451bd9067add0a3da664048f9905d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:53 +0000
Subject: [PATCH 05/17] fix: report an error when the node answers for fewer
 accounts than asked

The state fetcher panicked, and the claim search left out claims silently.
---
 rust-client/src/utils/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index 13f02e4..a178dc8 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -1,4 +1,3 @@
-use crate::generated::accounts::fetch_state;
 use crate::{
     find_orca_vault_address, find_pending_withdraw_pda, find_state_address, PendingWithdraw, State,
     XORCA_STAKING_PROGRAM_ID,
@@ -44,8 +43,10 @@ pub struct StakingExchangeRate {
 /// Returns an error if the state account is not found or cannot be decoded
 pub fn fetch_state_account_data(rpc: &RpcClient) -> Result<State, ProgramError> {
     let (state_address, _) = find_state_address()?;
-    let decoded = fetch_state(rpc, &state_address)?;
-    Ok(decoded.data)
+    let account = rpc
+        .get_account(&state_address)
+        .map_err(|e| std::io::Error::other(e.to_string()))?;
+    Ok(State::from_bytes(&account.data)?)
 }
 
 /// Fetches the cooldown period (in seconds) from the state account
@@ -94,10 +95,13 @@ pub fn fetch_pending_withdraws_for_staker(
     // Fetch all accounts (including non-existent ones)
     let mut accounts = Vec::new();
     for chunk in addresses.chunks(MAX_ACCOUNTS_PER_REQUEST) {
-        accounts.extend(
-            rpc.get_multiple_accounts(chunk)
-                .map_err(|e| std::io::Error::other(e.to_string()))?,
-        );
+        let answer = rpc
+            .get_multiple_accounts(chunk)
+            .map_err(|e| std::io::Error::other(e.to_string()))?;
+        if answer.len() != chunk.len() {
+            return Err(std::io::Error::other("Incomplete response").into());
+        }
+        accounts.extend(answer);
     }
 
     // Filter out non-existent accounts, and addresses that merely received lamports, and extract
-- 
2.43.0


From da94fedb97fdcd3640d6bae47724330ec34884bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 06/17] fix: search more than 100 claim indices in several
 requests (JS)

RPC nodes refuse getMultipleAccounts with more than 100 addresses, so every
search limit from 101 on failed.
---
 js-client/src/utils/index.ts | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index ba17fb8..88fc67e 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -25,6 +25,8 @@ const XORCA_MINT_ADDRESS = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N' as Addr
 
 const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH = 15;
 const WITHDRAW_INDEX_MAX_UINT = 255;
+// The number of accounts an RPC node returns at most per request
+const MAX_ACCOUNTS_PER_REQUEST = 100;
 
 export async function findStateAddress(): Promise<ProgramDerivedAddress> {
   return await getProgramDerivedAddress({
@@ -95,11 +97,17 @@ export async function fetchPendingWithdrawsForStaker(
       findPendingWithdrawAddress(staker, index).then(([address]) => address)
     )
   );
-  const accounts = await rpc
-    .getMultipleAccounts(pendingWithdrawAddresses, { encoding: 'base64' })
-    .send();
+  const accounts = [];
+  for (let i = 0; i < pendingWithdrawAddresses.length; i += MAX_ACCOUNTS_PER_REQUEST) {
+    const { value } = await rpc
+      .getMultipleAccounts(pendingWithdrawAddresses.slice(i, i + MAX_ACCOUNTS_PER_REQUEST), {
+        encoding: 'base64',
+      })
+      .send();
+    accounts.push(...value);
+  }
   const [pendingWithdrawDecoder, base64Encoder] = [getPendingWithdrawDecoder(), getBase64Encoder()];
-  const pendingWithdraws = accounts.value
+  const pendingWithdraws = accounts
     .filter((account): account is NonNullable<typeof account> => Boolean(account))
     .map((account) => {
       const dataBytes = base64Encoder.encode(account.data[0]);
-- 
2.43.0


From d2844cf7c7c4089e8bd6f2a586a393b8108b2c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 07/17] fix: take the exchange rate from a single moment (JS)

State, vault and mint were read by three requests. An operation between them
made the rate one the pool never had.
---
 js-client/src/utils/index.ts | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index 88fc67e..5e84142 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -178,10 +178,32 @@ export async function fetchStakingExchangeRate(
   numerator: bigint;
   denominator: bigint;
 }> {
-  const state = await fetchStateAccountData(rpc);
-  const vault = await fetchVaultState(rpc);
+  const [stateAddress] = await findStateAddress();
+  const [vaultAddress] = await findVaultAddress(
+    stateAddress,
+    TOKEN_PROGRAM_ADDRESS,
+    ORCA_MINT_ADDRESS
+  );
+  // One request, so that all three accounts are from the same moment
+  const accounts = await rpc
+    .getMultipleAccounts([stateAddress, vaultAddress, XORCA_MINT_ADDRESS], { encoding: 'base64' })
+    .send();
+  const [stateAccount, vaultAccount, mintAccount] = accounts.value;
+  if (!stateAccount) {
+    throw new Error('State account not found.');
+  }
+  if (!vaultAccount) {
+    throw new Error('Vault ATA not found.');
+  }
+  if (!mintAccount) {
+    throw new Error('xORCA mint not found.');
+  }
+  const base64Encoder = getBase64Encoder();
+  const state = getStateDecoder().decode(base64Encoder.encode(stateAccount.data[0]));
+  const vault = getTokenDecoder().decode(base64Encoder.encode(vaultAccount.data[0]));
+  const mint = getMintDecoder().decode(base64Encoder.encode(mintAccount.data[0]));
   const numerator = vault.amount - state.escrowedOrcaAmount;
-  const denominator = await fetchXorcaMintSupply(rpc);
+  const denominator = mint.supply;
   return {
     numerator,
     denominator,
-- 
2.43.0


From 25a5a2d4be52d82783fba434d09b1db955180bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 08/17] fix: act on the scripts' numbers exactly as given or
 refuse them

parseInt rounded amounts above 2^53, took '1e6' for 1 and '12abc' for 12,
and an index that is no number ended up as index 0.
---
 ts-scripts/args.ts                   | 13 +++++++++++++
 ts-scripts/initialize.ts             |  5 +++--
 ts-scripts/set.ts                    |  7 ++++---
 ts-scripts/transfer-orca-to-vault.ts |  3 ++-
 ts-scripts/unstake.ts                |  3 ++-
 ts-scripts/withdraw.ts               |  3 ++-
 6 files changed, 26 insertions(+), 8 deletions(-)
 create mode 100644 ts-scripts/args.ts

diff --git a/ts-scripts/args.ts b/ts-scripts/args.ts
new file mode 100644
index 0000000..051a9ef
--- /dev/null
+++ b/ts-scripts/args.ts
@@ -0,0 +1,13 @@
+/**
+ * Read a command line argument that must be a whole number.
+ *
+ * Unlike parseInt this never rounds large values, and never accepts only the leading part of an argument
+ * ("1.5", "1e6", "12abc") or nothing of it (NaN).
+ */
+export function parseInteger(value: string, name: string): bigint {
+  if (!/^-?\d+$/.test(value)) {
+    console.error(`❌ Invalid ${name}: "${value}". Must be a whole number.`);
+    process.exit(1);
+  }
+  return BigInt(value);
+}
diff --git a/ts-scripts/initialize.ts b/ts-scripts/initialize.ts
index 410d99d..57dcb35 100644
--- a/ts-scripts/initialize.ts
+++ b/ts-scripts/initialize.ts
@@ -8,6 +8,7 @@ import {
   sendAndConfirmTransaction,
 } from '@solana/web3.js';
 import { readFileSync } from 'fs';
+import { parseInteger } from './args';
 import {
   XORCA_STAKING_PROGRAM_ID,
   ORCA_MINT_ADDRESS,
@@ -30,7 +31,7 @@ if (args.length < 3) {
 }
 
 const [deployerKeypairPath, updateAuthorityKeypairPath, coolDownPeriodStr] = args;
-const coolDownPeriod = parseInt(coolDownPeriodStr);
+const coolDownPeriod = parseInteger(coolDownPeriodStr, 'cool down period');
 
 console.log('🚀 Starting initialize transaction...');
 console.log(`Deployer keypair: ${deployerKeypairPath}`);
@@ -92,7 +93,7 @@ async function main() {
 
     // Write the cool down period as i64 (little-endian)
     const coolDownBuffer = Buffer.alloc(8);
-    coolDownBuffer.writeBigInt64LE(BigInt(coolDownPeriod), 0);
+    coolDownBuffer.writeBigInt64LE(coolDownPeriod, 0);
     instructionData.set(coolDownBuffer, 1);
 
     // Create the initialize instruction
diff --git a/ts-scripts/set.ts b/ts-scripts/set.ts
index 257d103..4f36b1d 100644
--- a/ts-scripts/set.ts
+++ b/ts-scripts/set.ts
@@ -9,6 +9,7 @@ import {
 } from '@solana/web3.js';
 import { readFileSync } from 'fs';
 import { TransactionInstruction } from '@solana/web3.js';
+import { parseInteger } from './args';
 import { XORCA_STAKING_PROGRAM_ID, RPC_URL, STATE_SEED } from './constants';
 
 // Parse command line arguments
@@ -69,8 +70,8 @@ async function main() {
     let instructionData: Buffer;
 
     if (operation === 'update-cooldown') {
-      const cooldownSeconds = parseInt(value);
-      if (isNaN(cooldownSeconds) || cooldownSeconds < 0) {
+      const cooldownSeconds = parseInteger(value, 'cooldown period');
+      if (cooldownSeconds < 0n) {
         console.error('❌ Invalid cooldown period! Must be a non-negative integer.');
         process.exit(1);
       }
@@ -81,7 +82,7 @@ async function main() {
       instructionData = Buffer.alloc(10); // 1 byte for Set discriminator + 1 byte for StateUpdateInstruction discriminator + 8 bytes for i64
       instructionData.writeUInt8(4, 0); // Set instruction discriminator
       instructionData.writeUInt8(0, 1); // UpdateCoolDownPeriod discriminator
-      instructionData.writeBigInt64LE(BigInt(cooldownSeconds), 2); // new_cool_down_period_s as little-endian i64
+      instructionData.writeBigInt64LE(cooldownSeconds, 2); // new_cool_down_period_s as little-endian i64
 
       console.log(`Setting cooldown period to: ${cooldownSeconds} seconds`);
     } else if (operation === 'update-authority') {
diff --git a/ts-scripts/transfer-orca-to-vault.ts b/ts-scripts/transfer-orca-to-vault.ts
index c01f825..434a094 100644
--- a/ts-scripts/transfer-orca-to-vault.ts
+++ b/ts-scripts/transfer-orca-to-vault.ts
@@ -15,6 +15,7 @@ import {
   TOKEN_PROGRAM_ID,
   ASSOCIATED_TOKEN_PROGRAM_ID,
 } from '@solana/spl-token';
+import { parseInteger } from './args';
 import { ORCA_MINT_ADDRESS, XORCA_STAKING_PROGRAM_ID, RPC_URL, STATE_SEED } from './constants';
 
 // Parse command line arguments
@@ -27,7 +28,7 @@ if (args.length < 2) {
 }
 
 const [senderKeypairPath, orcaAmountStr] = args;
-const orcaAmount = BigInt(parseInt(orcaAmountStr));
+const orcaAmount = parseInteger(orcaAmountStr, 'ORCA amount');
 
 console.log('🚀 Starting ORCA transfer to vault...');
 console.log(`Sender keypair: ${senderKeypairPath}`);
diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index 55f9df2..89ba271 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -13,6 +13,7 @@ import {
   createAssociatedTokenAccountInstruction,
 } from '@solana/spl-token';
 import { SystemProgram, TransactionInstruction } from '@solana/web3.js';
+import { parseInteger } from './args';
 import {
   ORCA_MINT_ADDRESS,
   XORCA_MINT_ADDRESS,
@@ -32,7 +33,7 @@ if (args.length < 3) {
 
 const [stakerKeypairPath, xorcaAmountStr, withdrawIndexStr] = args;
 const xorcaAmount = BigInt(xorcaAmountStr);
-const withdrawIndex = parseInt(withdrawIndexStr, 10);
+const withdrawIndex = Number(parseInteger(withdrawIndexStr, 'withdraw index'));
 
 console.log('🚀 Starting unstake transaction...');
 console.log(`Staker keypair: ${stakerKeypairPath}`);
diff --git a/ts-scripts/withdraw.ts b/ts-scripts/withdraw.ts
index 8360c3e..8ea2e53 100644
--- a/ts-scripts/withdraw.ts
+++ b/ts-scripts/withdraw.ts
@@ -13,6 +13,7 @@ import {
   createAssociatedTokenAccountInstruction,
 } from '@solana/spl-token';
 import { SystemProgram, TransactionInstruction } from '@solana/web3.js';
+import { parseInteger } from './args';
 import {
   ORCA_MINT_ADDRESS,
   XORCA_MINT_ADDRESS,
@@ -31,7 +32,7 @@ if (args.length < 2) {
 }
 
 const [stakerKeypairPath, withdrawIndexStr] = args;
-const withdrawIndex = parseInt(withdrawIndexStr, 10);
+const withdrawIndex = Number(parseInteger(withdrawIndexStr, 'withdraw index'));
 
 console.log('🚀 Starting withdraw transaction...');
 console.log(`Staker keypair: ${stakerKeypairPath}`);
-- 
2.43.0


From afbf79632d2cedc1a8f6d3608b38190e1f953b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 09/17] fix: report what a script's operation moved, not the
 balance afterwards

---
 ts-scripts/stake.ts                  | 4 +++-
 ts-scripts/transfer-orca-to-vault.ts | 2 +-
 ts-scripts/unstake.ts                | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ts-scripts/stake.ts b/ts-scripts/stake.ts
index d6aa818..ca812dc 100644
--- a/ts-scripts/stake.ts
+++ b/ts-scripts/stake.ts
@@ -106,6 +106,7 @@ async function main() {
     } else {
       console.log('✅ Staker xORCA ATA exists');
     }
+    const initialXorcaAmount = xorcaAtaInfo ? xorcaAtaInfo.data.readBigUInt64LE(64) : 0n;
 
     // Create the stake instruction manually
     console.log('🏗️ Creating stake instruction...');
@@ -179,7 +180,8 @@ async function main() {
 
     const orcaStaked = BigInt(orcaBalance.value.amount) - BigInt(finalOrcaBalance.value.amount);
     console.log(`ORCA staked: ${orcaStaked.toString()}`);
-    console.log(`xORCA received: ${finalXorcaBalance.value.amount}`);
+    const xorcaReceived = BigInt(finalXorcaBalance.value.amount) - initialXorcaAmount;
+    console.log(`xORCA received: ${xorcaReceived.toString()}`);
   } catch (error) {
     console.error('❌ Error staking ORCA:', error);
     process.exit(1);
diff --git a/ts-scripts/transfer-orca-to-vault.ts b/ts-scripts/transfer-orca-to-vault.ts
index 434a094..f4bb311 100644
--- a/ts-scripts/transfer-orca-to-vault.ts
+++ b/ts-scripts/transfer-orca-to-vault.ts
@@ -134,7 +134,7 @@ async function main() {
     console.log(`Final sender ORCA balance: ${finalSenderBalance.toString()}`);
     console.log(`Final vault ORCA balance: ${finalVaultBalance.toString()}`);
     console.log(`ORCA transferred: ${orcaAmount.toString()}`);
-    console.log(`Vault received: ${finalVaultBalance - (vaultAccount.amount - orcaAmount)} ORCA`);
+    console.log(`Vault received: ${finalVaultBalance - vaultAccount.amount} ORCA`);
 
     console.log('🎉 Transfer to vault completed successfully!');
   } catch (error) {
diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index 89ba271..8a34209 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -122,6 +122,7 @@ async function main() {
     } else {
       console.log('✅ Staker ORCA ATA exists');
     }
+    const initialStakerOrcaBalance = orcaAtaInfo?.data.length ? orcaAtaInfo.data.readBigUInt64LE(64) : 0n;
 
     // Derive pending withdraw account
     console.log('🔍 Deriving pending withdraw account...');
@@ -214,7 +215,7 @@ async function main() {
     console.log(`Staker's final ORCA balance: ${finalStakerOrcaBalance}`);
 
     const xorcaUnstaked = stakerXorcaBalance - finalStakerXorcaBalance;
-    const orcaReceived = finalStakerOrcaBalance - (stakerXorcaBalance > 0 ? BigInt(0) : BigInt(0));
+    const orcaReceived = finalStakerOrcaBalance - initialStakerOrcaBalance;
     console.log(`xORCA unstaked: ${xorcaUnstaked}`);
     console.log(`ORCA received: ${orcaReceived}`);
   } catch (error) {
-- 
2.43.0


From 4e046cde3aee8a481a3d67f1467dd16d46c1b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 10/17] fix: do not swap the two exchange rates in the status
 script

---
 ts-scripts/README.md | 4 ++--
 ts-scripts/status.ts | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts-scripts/README.md b/ts-scripts/README.md
index a9cfc31..cbb0203 100644
--- a/ts-scripts/README.md
+++ b/ts-scripts/README.md
@@ -89,8 +89,8 @@ Non-Escrowed ORCA: 498200
 xORCA Total Supply: 150000
 
 🔄 Exchange Rates:
-ORCA → xORCA Rate: 3.3197868088 (1 ORCA = 3.3197868088 xORCA)
-xORCA → ORCA Rate: 0.3012241622 (1 xORCA = 0.3012241622 ORCA)
+ORCA → xORCA Rate: 0.3012241622 (1 ORCA = 0.3012241622 xORCA)
+xORCA → ORCA Rate: 3.3197868088 (1 xORCA = 3.3197868088 ORCA)
 ```
 
 ### 2. Transfer ORCA to Vault Script (`transfer-orca-to-vault.ts`)
diff --git a/ts-scripts/status.ts b/ts-scripts/status.ts
index e02808e..eeedaa7 100644
--- a/ts-scripts/status.ts
+++ b/ts-scripts/status.ts
@@ -109,8 +109,8 @@ async function main() {
       const numerator = nonEscrowedAmount + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT;
       const denominator = xorcaSupply + VIRTUAL_XORCA_SUPPLY;
 
-      const exchangeRate = Number(numerator) / Number(denominator);
-      const inverseExchangeRate = Number(denominator) / Number(numerator);
+      const exchangeRate = Number(denominator) / Number(numerator);
+      const inverseExchangeRate = Number(numerator) / Number(denominator);
 
       console.log('🔄 Exchange Rates:');
       console.log(
-- 
2.43.0


From 112b4e30fd38da9450cff3a1f9c7249ff308d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 11/17] fix: call the claims' amounts ORCA, which they are, in
 pending-withdraws

---
 ts-scripts/README.md            | 10 +++++-----
 ts-scripts/pending-withdraws.ts | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/ts-scripts/README.md b/ts-scripts/README.md
index cbb0203..4c9efb1 100644
--- a/ts-scripts/README.md
+++ b/ts-scripts/README.md
@@ -155,7 +155,7 @@ yarn pending-withdraws BQGjVjG8ZJW4m4hXybjLRB367idYyAHWbyjPBeL2w1hq
 
 #### What the script displays
 
-- **Pending Withdraw Details**: Each pending withdraw with its index, address, and xORCA amount
+- **Pending Withdraw Details**: Each pending withdraw with its index, address, and withdrawable ORCA amount
 - **Timing Information**: Creation timestamp, time elapsed, and cooldown status
 - **Withdrawal Status**: Whether each withdraw is ready or still in cooldown
 - **Time Calculations**: How long until ready (if in cooldown) or how long since ready (if ready)
@@ -178,7 +178,7 @@ Cool down period: 350000 seconds
 
 1. Pending Withdraw #0
    Address: 7xK8vQ9mN2pL3rT5sW6uY1zA4bC7dE9fG2hJ5kM8nP
-   xORCA Amount: 1000000000
+   ORCA Amount: 1000000000
    Created: 2024-01-15T10:30:00.000Z
    Time Elapsed: 2d 5h 30m
    ✅ Status: READY TO WITHDRAW
@@ -186,7 +186,7 @@ Cool down period: 350000 seconds
 
 2. Pending Withdraw #1
    Address: 9yL7wR8nO3qM4sT6uV2xZ5bD8eF1gH4jK6lN9oQ3rS
-   xORCA Amount: 500000000
+   ORCA Amount: 500000000
    Created: 2024-01-16T14:45:00.000Z
    Time Elapsed: 1d 1h 15m
    ⏳ Status: COOLDOWN ACTIVE
@@ -196,8 +196,8 @@ Cool down period: 350000 seconds
 Total Pending Withdraws: 2
 Ready to Withdraw: 1
 In Cooldown: 1
-Total xORCA Ready: 1000000000
-Total xORCA in Cooldown: 500000000
+Total ORCA Ready: 1000000000
+Total ORCA in Cooldown: 500000000
 ```
 
 ### 4. Initialize Script (`initialize.ts`)
diff --git a/ts-scripts/pending-withdraws.ts b/ts-scripts/pending-withdraws.ts
index 99bae1a..c56fed5 100644
--- a/ts-scripts/pending-withdraws.ts
+++ b/ts-scripts/pending-withdraws.ts
@@ -113,7 +113,7 @@ async function main() {
           pendingWithdraws.push({
             index: storedWithdrawIndex,
             address: pendingWithdrawAddress,
-            xorcaAmount: withdrawableOrcaAmount,
+            orcaAmount: withdrawableOrcaAmount,
             timestamp: withdrawableTimestamp,
             timeElapsed,
             timeRemaining,
@@ -139,7 +139,7 @@ async function main() {
     pendingWithdraws.forEach((withdraw, index) => {
       console.log(`\n${index + 1}. Pending Withdraw #${withdraw.index}`);
       console.log(`   Address: ${withdraw.address.toString()}`);
-      console.log(`   xORCA Amount: ${withdraw.xorcaAmount.toString()}`);
+      console.log(`   ORCA Amount: ${withdraw.orcaAmount.toString()}`);
       // Handle timestamp display safely - show when withdraw was created
       try {
         const createdAtTimestamp = withdraw.timestamp - coolDownPeriodS;
@@ -173,13 +173,13 @@ async function main() {
     console.log(`In Cooldown: ${cooldownWithdraws.length}`);
 
     if (readyWithdraws.length > 0) {
-      const totalReadyXorca = readyWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);
-      console.log(`Total xORCA Ready: ${totalReadyXorca.toString()}`);
+      const totalReadyOrca = readyWithdraws.reduce((sum, w) => sum + w.orcaAmount, 0n);
+      console.log(`Total ORCA Ready: ${totalReadyOrca.toString()}`);
     }
 
     if (cooldownWithdraws.length > 0) {
-      const totalCooldownXorca = cooldownWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);
-      console.log(`Total xORCA in Cooldown: ${totalCooldownXorca.toString()}`);
+      const totalCooldownOrca = cooldownWithdraws.reduce((sum, w) => sum + w.orcaAmount, 0n);
+      console.log(`Total ORCA in Cooldown: ${totalCooldownOrca.toString()}`);
     }
   } catch (error) {
     console.error('❌ Error fetching pending withdraws:', error);
-- 
2.43.0


From 1ec94c5f066d28214058446566d99896dba5aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 12/17] fix: do not leave claims out of the list when a request
 fails

A failing request was taken for an absent claim. Accounts the program does
not own are skipped instead of being read.
---
 ts-scripts/pending-withdraws.ts | 112 +++++++++++++++-----------------
 1 file changed, 54 insertions(+), 58 deletions(-)

diff --git a/ts-scripts/pending-withdraws.ts b/ts-scripts/pending-withdraws.ts
index c56fed5..999cd12 100644
--- a/ts-scripts/pending-withdraws.ts
+++ b/ts-scripts/pending-withdraws.ts
@@ -66,64 +66,60 @@ async function main() {
     const pendingWithdraws = [];
 
     for (let withdrawIndex = 0; withdrawIndex < maxWithdrawalsToSearch; withdrawIndex++) {
-      try {
-        // Derive pending withdraw account address
-        const [pendingWithdrawAddress] = PublicKey.findProgramAddressSync(
-          [
-            Buffer.from(PENDING_WITHDRAW_SEED),
-            stakerPublicKey.toBuffer(),
-            Buffer.from([withdrawIndex]),
-          ],
-          XORCA_STAKING_PROGRAM_ID
-        );
-
-        // Try to fetch the account
-        const accountInfo = await connection.getAccountInfo(pendingWithdrawAddress);
-        if (accountInfo) {
-          // Parse pending withdraw data according to the Rust struct:
-          // - discriminator: 1 byte
-          // - padding1: 5 bytes
-          // - bump: 1 byte
-          // - withdraw_index: 1 byte
-          // - unstaker: 32 bytes
-          // - withdrawable_orca_amount: 8 bytes (u64)
-          // - withdrawable_timestamp: 8 bytes (i64)
-          const data = accountInfo.data;
-
-          const discriminator = data.readUInt8(0);
-          const bump = data.readUInt8(6);
-          const storedWithdrawIndex = data.readUInt8(7);
-          const unstaker = data.slice(8, 40); // 32 bytes
-          const withdrawableOrcaAmount = data.readBigUInt64LE(40); // 8 bytes
-          const withdrawableTimestamp = data.readBigInt64LE(48); // 8 bytes (signed)
-
-          // Calculate current timestamp
-          const currentTimestamp = BigInt(Math.floor(Date.now() / 1000));
-
-          // withdrawableTimestamp is the future time when withdraw will be ready
-          // So we need to check if current time >= withdrawableTimestamp
-          const isReady = currentTimestamp >= withdrawableTimestamp;
-          const timeRemaining = isReady ? 0n : withdrawableTimestamp - currentTimestamp;
-          const timeSinceReady = isReady ? currentTimestamp - withdrawableTimestamp : 0n;
-
-          // Calculate when the withdraw was created (withdrawableTimestamp - cooldown)
-          const createdAtTimestamp = withdrawableTimestamp - coolDownPeriodS;
-          const timeElapsed = currentTimestamp - createdAtTimestamp;
-
-          pendingWithdraws.push({
-            index: storedWithdrawIndex,
-            address: pendingWithdrawAddress,
-            orcaAmount: withdrawableOrcaAmount,
-            timestamp: withdrawableTimestamp,
-            timeElapsed,
-            timeRemaining,
-            isReady,
-            timeSinceReady,
-          });
-        }
-      } catch (error) {
-        // Account doesn't exist or parsing error, continue searching
-        continue;
+      // Derive pending withdraw account address
+      const [pendingWithdrawAddress] = PublicKey.findProgramAddressSync(
+        [
+          Buffer.from(PENDING_WITHDRAW_SEED),
+          stakerPublicKey.toBuffer(),
+          Buffer.from([withdrawIndex]),
+        ],
+        XORCA_STAKING_PROGRAM_ID
+      );
+
+      // Try to fetch the account
+      const accountInfo = await connection.getAccountInfo(pendingWithdrawAddress);
+      // (Lamports can be sent to the address before the program creates the account)
+      if (accountInfo?.owner.equals(XORCA_STAKING_PROGRAM_ID)) {
+        // Parse pending withdraw data according to the Rust struct:
+        // - discriminator: 1 byte
+        // - padding1: 5 bytes
+        // - bump: 1 byte
+        // - withdraw_index: 1 byte
+        // - unstaker: 32 bytes
+        // - withdrawable_orca_amount: 8 bytes (u64)
+        // - withdrawable_timestamp: 8 bytes (i64)
+        const data = accountInfo.data;
+
+        const discriminator = data.readUInt8(0);
+        const bump = data.readUInt8(6);
+        const storedWithdrawIndex = data.readUInt8(7);
+        const unstaker = data.slice(8, 40); // 32 bytes
+        const withdrawableOrcaAmount = data.readBigUInt64LE(40); // 8 bytes
+        const withdrawableTimestamp = data.readBigInt64LE(48); // 8 bytes (signed)
+
+        // Calculate current timestamp
+        const currentTimestamp = BigInt(Math.floor(Date.now() / 1000));
+
+        // withdrawableTimestamp is the future time when withdraw will be ready
+        // So we need to check if current time >= withdrawableTimestamp
+        const isReady = currentTimestamp >= withdrawableTimestamp;
+        const timeRemaining = isReady ? 0n : withdrawableTimestamp - currentTimestamp;
+        const timeSinceReady = isReady ? currentTimestamp - withdrawableTimestamp : 0n;
+
+        // Calculate when the withdraw was created (withdrawableTimestamp - cooldown)
+        const createdAtTimestamp = withdrawableTimestamp - coolDownPeriodS;
+        const timeElapsed = currentTimestamp - createdAtTimestamp;
+
+        pendingWithdraws.push({
+          index: storedWithdrawIndex,
+          address: pendingWithdrawAddress,
+          orcaAmount: withdrawableOrcaAmount,
+          timestamp: withdrawableTimestamp,
+          timeElapsed,
+          timeRemaining,
+          isReady,
+          timeSinceReady,
+        });
       }
     }
 
-- 
2.43.0


From 71bef504fefaeb87f7a070c9a4e7e7a23f4d5809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:11 +0000
Subject: [PATCH 13/17] fix: open the token account even if somebody sent
 lamports to its address

---
 ts-scripts/stake.ts         | 5 +++--
 ts-scripts/transfer-orca.ts | 3 ++-
 ts-scripts/unstake.ts       | 3 ++-
 ts-scripts/withdraw.ts      | 3 ++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ts-scripts/stake.ts b/ts-scripts/stake.ts
index ca812dc..d409489 100644
--- a/ts-scripts/stake.ts
+++ b/ts-scripts/stake.ts
@@ -100,13 +100,14 @@ async function main() {
     const xorcaAtaInfo = await connection.getAccountInfo(stakerXorcaAta);
     let needsXorcaAtaCreation = false;
 
-    if (!xorcaAtaInfo) {
+    // (Lamports can be sent to the address before the account is created)
+    if (!xorcaAtaInfo?.owner.equals(TOKEN_PROGRAM_ID)) {
       console.log('📝 Staker xORCA ATA does not exist, will be created during transaction');
       needsXorcaAtaCreation = true;
     } else {
       console.log('✅ Staker xORCA ATA exists');
     }
-    const initialXorcaAmount = xorcaAtaInfo ? xorcaAtaInfo.data.readBigUInt64LE(64) : 0n;
+    const initialXorcaAmount = needsXorcaAtaCreation ? 0n : xorcaAtaInfo!.data.readBigUInt64LE(64);
 
     // Create the stake instruction manually
     console.log('🏗️ Creating stake instruction...');
diff --git a/ts-scripts/transfer-orca.ts b/ts-scripts/transfer-orca.ts
index cf94625..f6463e4 100644
--- a/ts-scripts/transfer-orca.ts
+++ b/ts-scripts/transfer-orca.ts
@@ -79,7 +79,8 @@ async function main() {
     const recipientAtaInfo = await connection.getAccountInfo(recipientOrcaAta);
     let needsAtaCreation = false;
 
-    if (!recipientAtaInfo) {
+    // (Lamports can be sent to the address before the account is created)
+    if (!recipientAtaInfo?.owner.equals(TOKEN_PROGRAM_ID)) {
       console.log('📝 Recipient ORCA ATA does not exist, will create it');
       needsAtaCreation = true;
     } else {
diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index 8a34209..e6eb324 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -116,7 +116,8 @@ async function main() {
     const orcaAtaInfo = await connection.getAccountInfo(stakerOrcaAta);
     let needsOrcaAtaCreation = false;
 
-    if (!orcaAtaInfo) {
+    // (Lamports can be sent to the address before the account is created)
+    if (!orcaAtaInfo?.owner.equals(TOKEN_PROGRAM_ID)) {
       console.log('📝 Staker ORCA ATA does not exist, will be created during transaction');
       needsOrcaAtaCreation = true;
     } else {
diff --git a/ts-scripts/withdraw.ts b/ts-scripts/withdraw.ts
index 8ea2e53..d413b63 100644
--- a/ts-scripts/withdraw.ts
+++ b/ts-scripts/withdraw.ts
@@ -132,7 +132,8 @@ async function main() {
     const orcaAtaInfo = await connection.getAccountInfo(stakerOrcaAta);
     let needsOrcaAtaCreation = false;
 
-    if (!orcaAtaInfo) {
+    // (Lamports can be sent to the address before the account is created)
+    if (!orcaAtaInfo?.owner.equals(TOKEN_PROGRAM_ID)) {
       console.log('📝 Staker ORCA ATA does not exist, will be created during transaction');
       needsOrcaAtaCreation = true;
     } else {
-- 
2.43.0


From 3fa231d53d2a28ede98bdc34a986b02703be10c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:11 +0000
Subject: [PATCH 14/17] fix: let the operation proceed if somebody opens the
 token account first

---
 ts-scripts/stake.ts         | 4 ++--
 ts-scripts/transfer-orca.ts | 4 ++--
 ts-scripts/unstake.ts       | 4 ++--
 ts-scripts/withdraw.ts      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ts-scripts/stake.ts b/ts-scripts/stake.ts
index d409489..2ab59c4 100644
--- a/ts-scripts/stake.ts
+++ b/ts-scripts/stake.ts
@@ -10,7 +10,7 @@ import {
 import { readFileSync } from 'fs';
 import {
   getAssociatedTokenAddressSync,
-  createAssociatedTokenAccountInstruction,
+  createAssociatedTokenAccountIdempotentInstruction,
 } from '@solana/spl-token';
 import { TransactionInstruction } from '@solana/web3.js';
 import {
@@ -139,7 +139,7 @@ async function main() {
     // Add xORCA ATA creation instruction if needed
     if (needsXorcaAtaCreation) {
       console.log('🏗️ Adding xORCA ATA creation instruction...');
-      const createXorcaAtaInstruction = createAssociatedTokenAccountInstruction(
+      const createXorcaAtaInstruction = createAssociatedTokenAccountIdempotentInstruction(
         stakerKeypair.publicKey, // payer
         stakerXorcaAta, // ata
         stakerKeypair.publicKey, // owner
diff --git a/ts-scripts/transfer-orca.ts b/ts-scripts/transfer-orca.ts
index f6463e4..f4d9442 100644
--- a/ts-scripts/transfer-orca.ts
+++ b/ts-scripts/transfer-orca.ts
@@ -11,7 +11,7 @@ import { readFileSync } from 'fs';
 import {
   getAssociatedTokenAddressSync,
   createTransferInstruction,
-  createAssociatedTokenAccountInstruction,
+  createAssociatedTokenAccountIdempotentInstruction,
   TOKEN_PROGRAM_ID,
   ASSOCIATED_TOKEN_PROGRAM_ID,
 } from '@solana/spl-token';
@@ -115,7 +115,7 @@ async function main() {
     // Add ATA creation instruction if needed
     if (needsAtaCreation) {
       console.log('🏗️ Adding ATA creation instruction...');
-      const createAtaInstruction = createAssociatedTokenAccountInstruction(
+      const createAtaInstruction = createAssociatedTokenAccountIdempotentInstruction(
         senderKeypair.publicKey, // payer
         recipientOrcaAta, // ata
         recipientPublicKey, // owner
diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index e6eb324..e843f97 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -10,7 +10,7 @@ import {
 import { readFileSync } from 'fs';
 import {
   getAssociatedTokenAddressSync,
-  createAssociatedTokenAccountInstruction,
+  createAssociatedTokenAccountIdempotentInstruction,
 } from '@solana/spl-token';
 import { SystemProgram, TransactionInstruction } from '@solana/web3.js';
 import { parseInteger } from './args';
@@ -169,7 +169,7 @@ async function main() {
     // Add ORCA ATA creation instruction if needed
     if (needsOrcaAtaCreation) {
       console.log('🏗️ Adding ORCA ATA creation instruction...');
-      const createOrcaAtaInstruction = createAssociatedTokenAccountInstruction(
+      const createOrcaAtaInstruction = createAssociatedTokenAccountIdempotentInstruction(
         stakerKeypair.publicKey, // payer
         stakerOrcaAta, // ata
         stakerKeypair.publicKey, // owner
diff --git a/ts-scripts/withdraw.ts b/ts-scripts/withdraw.ts
index d413b63..09879ae 100644
--- a/ts-scripts/withdraw.ts
+++ b/ts-scripts/withdraw.ts
@@ -10,7 +10,7 @@ import {
 import { readFileSync } from 'fs';
 import {
   getAssociatedTokenAddressSync,
-  createAssociatedTokenAccountInstruction,
+  createAssociatedTokenAccountIdempotentInstruction,
 } from '@solana/spl-token';
 import { SystemProgram, TransactionInstruction } from '@solana/web3.js';
 import { parseInteger } from './args';
@@ -170,7 +170,7 @@ async function main() {
     // Add ORCA ATA creation instruction if needed
     if (needsOrcaAtaCreation) {
       console.log('🏗️ Adding ORCA ATA creation instruction...');
-      const createOrcaAtaInstruction = createAssociatedTokenAccountInstruction(
+      const createOrcaAtaInstruction = createAssociatedTokenAccountIdempotentInstruction(
         stakerKeypair.publicKey, // payer
         stakerOrcaAta, // ata
         stakerKeypair.publicKey, // owner
-- 
2.43.0


From d9f84142d65667cc40a9555e9d54b92d0407e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:07 +0000
Subject: [PATCH 15/17] fix: refuse a private key that is not hex

---
 ts-scripts/generate-keypair.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ts-scripts/generate-keypair.ts b/ts-scripts/generate-keypair.ts
index 1dbc51a..e771088 100644
--- a/ts-scripts/generate-keypair.ts
+++ b/ts-scripts/generate-keypair.ts
@@ -28,7 +28,10 @@ function main() {
   const filename = args[1] || 'generated-keypair.json';
 
   try {
-    // Decode hex private key
+    // Decode hex private key (Buffer.from ignores whatever follows the first character that is not hex)
+    if (!/^([0-9a-f]{2})*$/i.test(hexPrivateKey)) {
+      throw new Error('Invalid private key. Expected hex digits only');
+    }
     const privateKeyBytes = Buffer.from(hexPrivateKey, 'hex');
 
     // Validate that we have the correct number of bytes (32 for private key, 64 for full keypair)
-- 
2.43.0


From 6256202bde44d9a8854170faf30735b87cca7c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:07 +0000
Subject: [PATCH 16/17] fix: keep the saved key until the new one is complete

---
 ts-scripts/generate-keypair.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ts-scripts/generate-keypair.ts b/ts-scripts/generate-keypair.ts
index e771088..7564041 100644
--- a/ts-scripts/generate-keypair.ts
+++ b/ts-scripts/generate-keypair.ts
@@ -1,7 +1,7 @@
 #!/usr/bin/env tsx
 
 import { Keypair } from '@solana/web3.js';
-import { writeFileSync } from 'fs';
+import { renameSync, writeFileSync } from 'fs';
 import { join, dirname } from 'path';
 import { fileURLToPath } from 'url';
 
@@ -44,7 +44,9 @@ function main() {
       const keypairsDir = join(__dirname, 'keypairs');
       const filePath = join(keypairsDir, filename);
 
-      writeFileSync(filePath, JSON.stringify(secretKeyArray));
+      // (A key saved before stays whole until this one is)
+      writeFileSync(`${filePath}.tmp`, JSON.stringify(secretKeyArray));
+      renameSync(`${filePath}.tmp`, filePath);
 
       console.log(`✅ Keypair generated successfully!`);
       console.log(`📁 Saved to: ${filePath}`);
@@ -58,7 +60,9 @@ function main() {
       const keypairsDir = join(__dirname, 'keypairs');
       const filePath = join(keypairsDir, filename);
 
-      writeFileSync(filePath, JSON.stringify(secretKeyArray));
+      // (A key saved before stays whole until this one is)
+      writeFileSync(`${filePath}.tmp`, JSON.stringify(secretKeyArray));
+      renameSync(`${filePath}.tmp`, filePath);
 
       console.log(`✅ Keypair generated successfully!`);
       console.log(`📁 Saved to: ${filePath}`);
-- 
2.43.0


From b89108786ae539ad22ff645319873c940b1dc43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:06 +0000
Subject: [PATCH 17/17] fix: refuse a key file whose numbers are not bytes when
 uploading an image

---
 ts-scripts/upload-image.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ts-scripts/upload-image.ts b/ts-scripts/upload-image.ts
index fe4a85c..f0d0d9c 100644
--- a/ts-scripts/upload-image.ts
+++ b/ts-scripts/upload-image.ts
@@ -50,8 +50,12 @@ async function main() {
     console.log(`🔑 Loading keypair from: ${keypairPath}`);
     const keypairData = JSON.parse(readFileSync(keypairPath, 'utf8'));
 
-    if (!Array.isArray(keypairData) || keypairData.length !== 64) {
-      console.error('❌ Invalid keypair format. Expected array of 64 numbers.');
+    if (
+      !Array.isArray(keypairData) ||
+      keypairData.length !== 64 ||
+      !keypairData.every((byte) => Number.isInteger(byte) && byte >= 0 && byte <= 255)
+    ) {
+      console.error('❌ Invalid keypair format. Expected array of 64 bytes.');
       process.exit(1);
     }
 
-- 
2.43.0

