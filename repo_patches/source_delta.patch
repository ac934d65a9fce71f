From 5cf739e627b7779a40b7b48534ab7fc531fdb2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 1/7] fix: accept a vault token account that already exists
 when initializing

Anyone can create the vault's associated token account before the deployer initializes the
program. Initialize then failed with IncorrectOwner forever, although the vault is created
idempotently. Accept the existing account when it is the token account that would be created.
---
 solana-program/src/instructions/initialize.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/solana-program/src/instructions/initialize.rs b/solana-program/src/instructions/initialize.rs
index 2d4e2cc..048b1ee 100644
--- a/solana-program/src/instructions/initialize.rs
+++ b/solana-program/src/instructions/initialize.rs
@@ -1,7 +1,7 @@
 use crate::{
     assertions::account::{
         assert_account_address, assert_account_owner, assert_account_role, assert_account_seeds,
-        assert_external_account_data, AccountRole,
+        assert_external_account_data, make_owner_token_account_assertions, AccountRole,
     },
     cpi::token::{TokenMint, ORCA_MINT_ID, XORCA_MINT_ID},
     error::ErrorCode,
@@ -93,7 +93,13 @@ pub fn process_instruction(accounts: &[AccountInfo], cool_down_period_s: &i64) -
 
     // 7. Vault Account Assertions
     assert_account_role(vault_account, &[AccountRole::Writable])?;
-    assert_account_owner(vault_account, &SYSTEM_PROGRAM_ID)?;
+    // Anyone can create the vault's associated token account in advance, so an existing one
+    // is accepted as long as it is the token account that would be created below
+    if vault_account.is_owned_by(&SPL_TOKEN_PROGRAM_ID) {
+        make_owner_token_account_assertions(vault_account, state_account, orca_mint_account, true)?;
+    } else {
+        assert_account_owner(vault_account, &SYSTEM_PROGRAM_ID)?;
+    }
 
     // 8. Token Program Account Assertions
     assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID)?;
-- 
2.43.0


From e8889c4168e8b9b99e4c8b670abed59306723343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:24 +0000
Subject: [PATCH 2/7] fix: keep accounts that are not pending withdraws from
 failing the pending withdraws query

---
 rust-client/src/utils/mod.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index 47bcbba..4d67cee 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -1,7 +1,7 @@
-use crate::generated::accounts::{fetch_all_maybe_pending_withdraw, fetch_state};
-use crate::generated::shared;
+use crate::generated::accounts::fetch_state;
 use crate::{
     find_orca_vault_address, find_pending_withdraw_pda, find_state_address, PendingWithdraw, State,
+    XORCA_STAKING_PROGRAM_ID,
 };
 use anyhow::Context;
 use solana_client::rpc_client::RpcClient;
@@ -90,16 +90,18 @@ pub fn fetch_pending_withdraws_for_staker(
     }
 
     // Fetch all accounts (including non-existent ones)
-    let maybe_accounts = fetch_all_maybe_pending_withdraw(rpc, &addresses)?;
+    let maybe_accounts = rpc
+        .get_multiple_accounts(&addresses)
+        .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
 
-    // Filter out non-existent accounts and extract the data
-    let pending_withdraws: Vec<PendingWithdraw> = maybe_accounts
+    // Keep the accounts of the program and decode them. Anyone can send lamports to an address
+    // that is not in use yet, so an account may exist there without being a pending withdraw.
+    let pending_withdraws = maybe_accounts
         .into_iter()
-        .filter_map(|maybe_account| match maybe_account {
-            shared::MaybeAccount::Exists(decoded) => Some(decoded.data),
-            shared::MaybeAccount::NotFound(_) => None,
-        })
-        .collect();
+        .flatten()
+        .filter(|account| account.owner == XORCA_STAKING_PROGRAM_ID)
+        .map(|account| PendingWithdraw::from_bytes(&account.data))
+        .collect::<Result<Vec<_>, _>>()?;
 
     Ok(pending_withdraws)
 }
-- 
2.43.0


From 3d61c6d262d3dd45b252fa909bc791dcf365e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:44 +0000
Subject: [PATCH 3/7] fix: ask for at most 100 accounts per request in the
 pending withdraws query

---
 js-client/src/utils/index.ts | 21 +++++++++++++++++----
 rust-client/src/utils/mod.rs | 12 +++++++++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index ba17fb8..6ca67b7 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -25,6 +25,8 @@ const XORCA_MINT_ADDRESS = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N' as Addr
 
 const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH = 15;
 const WITHDRAW_INDEX_MAX_UINT = 255;
+// The number of accounts an RPC node serves in one getMultipleAccounts request.
+const MAX_MULTIPLE_ACCOUNTS = 100;
 
 export async function findStateAddress(): Promise<ProgramDerivedAddress> {
   return await getProgramDerivedAddress({
@@ -95,11 +97,22 @@ export async function fetchPendingWithdrawsForStaker(
       findPendingWithdrawAddress(staker, index).then(([address]) => address)
     )
   );
-  const accounts = await rpc
-    .getMultipleAccounts(pendingWithdrawAddresses, { encoding: 'base64' })
-    .send();
+  const addressChunks = Array.from(
+    { length: Math.ceil(pendingWithdrawAddresses.length / MAX_MULTIPLE_ACCOUNTS) },
+    (_, index) =>
+      pendingWithdrawAddresses.slice(
+        index * MAX_MULTIPLE_ACCOUNTS,
+        (index + 1) * MAX_MULTIPLE_ACCOUNTS
+      )
+  );
+  const responses = await Promise.all(
+    addressChunks.map((addresses) =>
+      rpc.getMultipleAccounts(addresses, { encoding: 'base64' }).send()
+    )
+  );
+  const accounts = responses.flatMap((response) => [...response.value]);
   const [pendingWithdrawDecoder, base64Encoder] = [getPendingWithdrawDecoder(), getBase64Encoder()];
-  const pendingWithdraws = accounts.value
+  const pendingWithdraws = accounts
     .filter((account): account is NonNullable<typeof account> => Boolean(account))
     .map((account) => {
       const dataBytes = base64Encoder.encode(account.data[0]);
diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index 4d67cee..a392db5 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -12,6 +12,8 @@ use spl_token_interface::state::{Account, Mint};
 use std::str::FromStr;
 
 pub const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH: u8 = 15;
+/// The number of accounts an RPC node serves in one `getMultipleAccounts` request.
+const MAX_MULTIPLE_ACCOUNTS: usize = 100;
 pub const ORCA_MINT_ADDRESS: &str = "orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE";
 pub const XORCA_MINT_ADDRESS: &str = "xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N";
 pub const TOKEN_PROGRAM_ADDRESS: &str = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA";
@@ -90,9 +92,13 @@ pub fn fetch_pending_withdraws_for_staker(
     }
 
     // Fetch all accounts (including non-existent ones)
-    let maybe_accounts = rpc
-        .get_multiple_accounts(&addresses)
-        .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
+    let mut maybe_accounts = Vec::with_capacity(addresses.len());
+    for chunk in addresses.chunks(MAX_MULTIPLE_ACCOUNTS) {
+        let accounts = rpc
+            .get_multiple_accounts(chunk)
+            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
+        maybe_accounts.extend(accounts);
+    }
 
     // Keep the accounts of the program and decode them. Anyone can send lamports to an address
     // that is not in use yet, so an account may exist there without being a pending withdraw.
-- 
2.43.0


From 1ab080f618055a8cb8a908a5198e07cd4a40c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:06 +0000
Subject: [PATCH 4/7] fix: scripts keep cooldown and vault transfer amounts
 exact

parseInt rounds integers above 2^53, so a different cooldown period or amount
than the one given on the command line was sent.
---
 ts-scripts/initialize.ts             | 4 ++--
 ts-scripts/set.ts                    | 6 +++---
 ts-scripts/transfer-orca-to-vault.ts | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ts-scripts/initialize.ts b/ts-scripts/initialize.ts
index 410d99d..8050055 100644
--- a/ts-scripts/initialize.ts
+++ b/ts-scripts/initialize.ts
@@ -30,7 +30,7 @@ if (args.length < 3) {
 }
 
 const [deployerKeypairPath, updateAuthorityKeypairPath, coolDownPeriodStr] = args;
-const coolDownPeriod = parseInt(coolDownPeriodStr);
+const coolDownPeriod = BigInt(coolDownPeriodStr);
 
 console.log('🚀 Starting initialize transaction...');
 console.log(`Deployer keypair: ${deployerKeypairPath}`);
@@ -92,7 +92,7 @@ async function main() {
 
     // Write the cool down period as i64 (little-endian)
     const coolDownBuffer = Buffer.alloc(8);
-    coolDownBuffer.writeBigInt64LE(BigInt(coolDownPeriod), 0);
+    coolDownBuffer.writeBigInt64LE(coolDownPeriod, 0);
     instructionData.set(coolDownBuffer, 1);
 
     // Create the initialize instruction
diff --git a/ts-scripts/set.ts b/ts-scripts/set.ts
index 257d103..1cd4dd3 100644
--- a/ts-scripts/set.ts
+++ b/ts-scripts/set.ts
@@ -69,11 +69,11 @@ async function main() {
     let instructionData: Buffer;
 
     if (operation === 'update-cooldown') {
-      const cooldownSeconds = parseInt(value);
-      if (isNaN(cooldownSeconds) || cooldownSeconds < 0) {
+      if (!/^\d+$/.test(value)) {
         console.error('❌ Invalid cooldown period! Must be a non-negative integer.');
         process.exit(1);
       }
+      const cooldownSeconds = BigInt(value);
 
       // Create instruction data for UpdateCoolDownPeriod
       // Discriminator for Set instruction: 4 (based on the enum order: Stake=0, Unstake=1, Withdraw=2, Initialize=3, Set=4)
@@ -81,7 +81,7 @@ async function main() {
       instructionData = Buffer.alloc(10); // 1 byte for Set discriminator + 1 byte for StateUpdateInstruction discriminator + 8 bytes for i64
       instructionData.writeUInt8(4, 0); // Set instruction discriminator
       instructionData.writeUInt8(0, 1); // UpdateCoolDownPeriod discriminator
-      instructionData.writeBigInt64LE(BigInt(cooldownSeconds), 2); // new_cool_down_period_s as little-endian i64
+      instructionData.writeBigInt64LE(cooldownSeconds, 2); // new_cool_down_period_s as little-endian i64
 
       console.log(`Setting cooldown period to: ${cooldownSeconds} seconds`);
     } else if (operation === 'update-authority') {
diff --git a/ts-scripts/transfer-orca-to-vault.ts b/ts-scripts/transfer-orca-to-vault.ts
index c01f825..d7fd554 100644
--- a/ts-scripts/transfer-orca-to-vault.ts
+++ b/ts-scripts/transfer-orca-to-vault.ts
@@ -27,7 +27,7 @@ if (args.length < 2) {
 }
 
 const [senderKeypairPath, orcaAmountStr] = args;
-const orcaAmount = BigInt(parseInt(orcaAmountStr));
+const orcaAmount = BigInt(orcaAmountStr);
 
 console.log('🚀 Starting ORCA transfer to vault...');
 console.log(`Sender keypair: ${senderKeypairPath}`);
-- 
2.43.0


From 1f6f9c7a949a2472673f372942269d51a013402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:06 +0000
Subject: [PATCH 5/7] fix: status script shows each exchange rate under its own
 direction

The two rates were swapped: numerator / denominator is the ORCA price of 1 xORCA.
---
 ts-scripts/README.md | 4 ++--
 ts-scripts/status.ts | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ts-scripts/README.md b/ts-scripts/README.md
index a9cfc31..cbb0203 100644
--- a/ts-scripts/README.md
+++ b/ts-scripts/README.md
@@ -89,8 +89,8 @@ Non-Escrowed ORCA: 498200
 xORCA Total Supply: 150000
 
 🔄 Exchange Rates:
-ORCA → xORCA Rate: 3.3197868088 (1 ORCA = 3.3197868088 xORCA)
-xORCA → ORCA Rate: 0.3012241622 (1 xORCA = 0.3012241622 ORCA)
+ORCA → xORCA Rate: 0.3012241622 (1 ORCA = 0.3012241622 xORCA)
+xORCA → ORCA Rate: 3.3197868088 (1 xORCA = 3.3197868088 ORCA)
 ```
 
 ### 2. Transfer ORCA to Vault Script (`transfer-orca-to-vault.ts`)
diff --git a/ts-scripts/status.ts b/ts-scripts/status.ts
index e02808e..d8548e7 100644
--- a/ts-scripts/status.ts
+++ b/ts-scripts/status.ts
@@ -109,8 +109,9 @@ async function main() {
       const numerator = nonEscrowedAmount + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT;
       const denominator = xorcaSupply + VIRTUAL_XORCA_SUPPLY;
 
-      const exchangeRate = Number(numerator) / Number(denominator);
-      const inverseExchangeRate = Number(denominator) / Number(numerator);
+      // The price of 1 xORCA is numerator / denominator ORCA
+      const exchangeRate = Number(denominator) / Number(numerator);
+      const inverseExchangeRate = Number(numerator) / Number(denominator);
 
       console.log('🔄 Exchange Rates:');
       console.log(
-- 
2.43.0


From eee988744a7b812d7db79262d45a3187142cf3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:06 +0000
Subject: [PATCH 6/7] fix: pending-withdraws script reports claims at every
 index

It searched the first 15 of 256 indices only, and left out a claim without a
word when its request to the node failed.
---
 ts-scripts/pending-withdraws.ts | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/ts-scripts/pending-withdraws.ts b/ts-scripts/pending-withdraws.ts
index 99bae1a..9cabc40 100644
--- a/ts-scripts/pending-withdraws.ts
+++ b/ts-scripts/pending-withdraws.ts
@@ -62,23 +62,35 @@ async function main() {
 
     // Search for pending withdraw accounts
     console.log('🔍 Searching for pending withdraw accounts...');
-    const maxWithdrawalsToSearch = 15; // Reasonable limit
+    const maxWithdrawalsToSearch = 256; // The withdraw index is a u8
     const pendingWithdraws = [];
 
-    for (let withdrawIndex = 0; withdrawIndex < maxWithdrawalsToSearch; withdrawIndex++) {
-      try {
-        // Derive pending withdraw account address
-        const [pendingWithdrawAddress] = PublicKey.findProgramAddressSync(
+    // Derive the pending withdraw account addresses
+    const pendingWithdrawAddresses = Array.from(
+      { length: maxWithdrawalsToSearch },
+      (_, withdrawIndex) =>
+        PublicKey.findProgramAddressSync(
           [
             Buffer.from(PENDING_WITHDRAW_SEED),
             stakerPublicKey.toBuffer(),
             Buffer.from([withdrawIndex]),
           ],
           XORCA_STAKING_PROGRAM_ID
-        );
+        )[0]
+    );
 
-        // Try to fetch the account
-        const accountInfo = await connection.getAccountInfo(pendingWithdrawAddress);
+    // Fetch the accounts, at most 100 per request
+    const accountInfos = [];
+    for (let i = 0; i < maxWithdrawalsToSearch; i += 100) {
+      accountInfos.push(
+        ...(await connection.getMultipleAccountsInfo(pendingWithdrawAddresses.slice(i, i + 100)))
+      );
+    }
+
+    for (let withdrawIndex = 0; withdrawIndex < maxWithdrawalsToSearch; withdrawIndex++) {
+      try {
+        const pendingWithdrawAddress = pendingWithdrawAddresses[withdrawIndex];
+        const accountInfo = accountInfos[withdrawIndex];
         if (accountInfo) {
           // Parse pending withdraw data according to the Rust struct:
           // - discriminator: 1 byte
-- 
2.43.0


From 503b948fb066aaf9a91a2c514b86cc4282f944c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:52 +0000
Subject: [PATCH 7/7] fix: generate-keypair wrote the key of a prefix for text
 that is not all hex

---
 ts-scripts/generate-keypair.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ts-scripts/generate-keypair.ts b/ts-scripts/generate-keypair.ts
index 1dbc51a..dee4c08 100644
--- a/ts-scripts/generate-keypair.ts
+++ b/ts-scripts/generate-keypair.ts
@@ -28,6 +28,12 @@ function main() {
   const filename = args[1] || 'generated-keypair.json';
 
   try {
+    // Buffer.from silently drops everything from the first character that is not part of a
+    // complete hex byte, so a mistyped key would otherwise yield the keypair of its prefix
+    if (!/^([0-9a-f]{2})+$/i.test(hexPrivateKey)) {
+      throw new Error('Invalid private key. Expected only pairs of hex digits');
+    }
+
     // Decode hex private key
     const privateKeyBytes = Buffer.from(hexPrivateKey, 'hex');
 
-- 
2.43.0

