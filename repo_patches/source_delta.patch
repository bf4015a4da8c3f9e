From 4e636db32670ec73b7b40740bf041c50f0905a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:10 +0000
Subject: [PATCH 01/29] hook: let a harness call the proxy and bridge
 processors natively (cfg vp_verif)

---
 programs/bridge/src/entrypoint.rs | 16 +++++++++++++++-
 programs/bridge/src/lib.rs        |  3 +++
 programs/proxy/src/entrypoint.rs  | 16 +++++++++++++++-
 programs/proxy/src/lib.rs         |  3 +++
 4 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/programs/bridge/src/entrypoint.rs b/programs/bridge/src/entrypoint.rs
index b449299..56fa84b 100644
--- a/programs/bridge/src/entrypoint.rs
+++ b/programs/bridge/src/entrypoint.rs
@@ -1,13 +1,16 @@
 use solana_program::{
     account_info::AccountInfo,
-    entrypoint,
     entrypoint::ProgramResult,
     program_error::{PrintProgramError, ProgramError},
     pubkey::Pubkey,
 };
 
+#[cfg(not(vp_verif))]
+use solana_program::entrypoint;
+
 use crate::{error::BridgeError, processor};
 
+#[cfg(not(vp_verif))]
 entrypoint!(process_instruction);
 fn process_instruction<'a>(
     program_id: &'a Pubkey,
@@ -25,3 +28,14 @@ fn process_instruction<'a>(
     }
     Ok(())
 }
+
+/// Verification hook: lets a harness call the processor of more than one program
+/// from the same (native) binary, where the exported entrypoint symbols would clash.
+#[cfg(vp_verif)]
+pub fn verif_process_instruction<'a>(
+    program_id: &'a Pubkey,
+    accounts: &'a [AccountInfo<'a>],
+    instruction_data: &[u8],
+) -> ProgramResult {
+    process_instruction(program_id, accounts, instruction_data)
+}
diff --git a/programs/bridge/src/lib.rs b/programs/bridge/src/lib.rs
index 8225b9e..1c43ae3 100644
--- a/programs/bridge/src/lib.rs
+++ b/programs/bridge/src/lib.rs
@@ -1,4 +1,7 @@
+#[cfg(not(vp_verif))]
 mod entrypoint;
+#[cfg(vp_verif)]
+pub mod entrypoint;
 mod error;
 mod instruction;
 mod processor;
diff --git a/programs/proxy/src/entrypoint.rs b/programs/proxy/src/entrypoint.rs
index bf0c218..4ca8029 100644
--- a/programs/proxy/src/entrypoint.rs
+++ b/programs/proxy/src/entrypoint.rs
@@ -1,13 +1,16 @@
 use solana_program::{
     account_info::AccountInfo,
-    entrypoint,
     entrypoint::ProgramResult,
     program_error::{PrintProgramError, ProgramError},
     pubkey::Pubkey,
 };
 
+#[cfg(not(vp_verif))]
+use solana_program::entrypoint;
+
 use crate::{error::ProxyError, processor};
 
+#[cfg(not(vp_verif))]
 entrypoint!(process_instruction);
 fn process_instruction<'a>(
     program_id: &'a Pubkey,
@@ -28,3 +31,14 @@ fn process_instruction<'a>(
 
     Ok(())
 }
+
+/// Verification hook: lets a harness call the processor of more than one program
+/// from the same (native) binary, where the exported entrypoint symbols would clash.
+#[cfg(vp_verif)]
+pub fn verif_process_instruction<'a>(
+    program_id: &'a Pubkey,
+    accounts: &'a [AccountInfo<'a>],
+    instruction_data: &[u8],
+) -> ProgramResult {
+    process_instruction(program_id, accounts, instruction_data)
+}
diff --git a/programs/proxy/src/lib.rs b/programs/proxy/src/lib.rs
index 418464d..cc87dd6 100644
--- a/programs/proxy/src/lib.rs
+++ b/programs/proxy/src/lib.rs
@@ -1,4 +1,7 @@
+#[cfg(not(vp_verif))]
 mod entrypoint;
+#[cfg(vp_verif)]
+pub mod entrypoint;
 mod error;
 mod instruction;
 mod processor;
-- 
2.43.0


From a644800520d65bb4741b1a85c909c8de9b1134a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:01 +0000
Subject: [PATCH 02/29] fix: accept either the delegate or the manager when
 both are present

assert_delegate kept the outcome of the last delegate only, so the delegate
of a managed asset could never use its roles.
---
 programs/asset/program/src/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/asset/program/src/utils.rs b/programs/asset/program/src/utils.rs
index f726f1c..c04bc98 100644
--- a/programs/asset/program/src/utils.rs
+++ b/programs/asset/program/src/utils.rs
@@ -36,6 +36,11 @@ pub fn assert_delegate(
     delegates.iter().fold(
         Err(AssetError::DelegateNotFound.into()),
         |result, delegate| {
+            // any of the delegates can provide the required role
+            if result.is_ok() {
+                return result;
+            }
+
             if let Some(delegate) = delegate {
                 require!(
                     *delegate.address == *target,
-- 
2.43.0


From de96e57796a6a737ea81da055ee39abaa16d0f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:01 +0000
Subject: [PATCH 03/29] fix: do not let the creators' total share wrap around

The shares were added up in a u8, which wraps in release builds: two shares
of 178 were accepted as 100.
---
 programs/asset/types/src/extensions/creators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index c2b9c5a..7ab7670 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -77,7 +77,7 @@ impl Lifecycle for CreatorsMut<'_> {
             } else {
                 false.into()
             };
-            total += creator.share;
+            total = creator.share.saturating_add(total);
         });
 
         if total != TOTAL_SHARE {
@@ -102,7 +102,7 @@ impl Lifecycle for CreatorsMut<'_> {
                     false.into()
                 };
             }
-            total += creator.share;
+            total = creator.share.saturating_add(total);
         });
 
         if total != 100 {
-- 
2.43.0


From edefee08e6eb4826a12aa68952d1beeca3609a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:01 +0000
Subject: [PATCH 04/29] fix: validate the extension data of an update buffer

The slice passed to the validation started at the extension header, so the
data that was then copied into the asset was not the data validated.
---
 programs/asset/program/src/processor/update.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index ca6ccd8..10f22e5 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -205,7 +205,7 @@ pub fn process_update(
             // validate the extension data
             validate(
                 extension_type,
-                &mut buffer.try_borrow_mut_data()?[Asset::LEN..Asset::LEN + header_length],
+                &mut buffer.try_borrow_mut_data()?[Asset::LEN + Extension::LEN..][..header_length],
                 if update {
                     Some(&mut account_data[start..start + current_length])
                 } else {
-- 
2.43.0


From 2c1b580659eecf5d3430a0ba773f150e1b9e9636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:01 +0000
Subject: [PATCH 05/29] fix: validate an update of an extension without data

Omitting the data skipped the validation, which allowed to add a manager or
proxy extension and to wipe creators and grouping data.
---
 programs/asset/program/src/processor/update.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 10f22e5..ed166df 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -219,7 +219,9 @@ pub fn process_update(
 
             (header_length, None)
         } else if let Some(args) = args.extension {
-            let length = if let Some(mut extension_data) = args.data {
+            // an extension without data is subject to the same validation
+            let length = {
+                let mut extension_data = args.data.unwrap_or_default();
                 let start = offset + Extension::LEN;
                 // validate the extension data
                 validate(
@@ -234,9 +236,6 @@ pub fn process_update(
                 )?;
 
                 (extension_data.len(), Some(extension_data))
-            } else {
-                // extension does not have any data
-                (0, None)
             };
 
             #[cfg(feature = "logging")]
-- 
2.43.0


From f12f6451f77652c3c903e34244857a424731721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:01 +0000
Subject: [PATCH 06/29] fix: update extensions of an account with spare room

The loops over the extensions did not stop at the end of the last extension:
spare bytes were read as extension headers.
---
 programs/asset/program/src/processor/update.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index ed166df..27c313e 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -158,7 +158,7 @@ pub fn process_update(
         //   - update flag (false when creating the extension)
         let mut extension = None;
 
-        while offset < account_data.len() {
+        while offset + Extension::LEN <= account_data.len() {
             let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
             match current.try_extension_type() {
@@ -345,8 +345,12 @@ pub fn process_update(
         // updates the boundaries of any subsequent extensions
         let mut cursor = updated_boundary;
 
-        while cursor < account_data.len() {
+        while cursor + Extension::LEN <= account_data.len() {
             let extension = Extension::load_mut(&mut account_data[cursor..cursor + Extension::LEN]);
+            // stop at the spare room of the account
+            if matches!(extension.try_extension_type(), Ok(ExtensionType::None)) {
+                break;
+            }
             let boundary = extension.boundary().saturating_add_signed(delta);
             extension.set_boundary(boundary);
             cursor = boundary as usize;
-- 
2.43.0


From 400e1bdd434b846556812c1d302b790a0c01810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:02 +0000
Subject: [PATCH 07/29] fix: find the extension to remove

A trailing extension without data was not found, and the spare room of an
account was taken for an extension of type none.
---
 programs/asset/program/src/processor/remove.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 3cfbd62..0d0e5a7 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -71,15 +71,15 @@ pub fn process_remove(
     let mut offset = Asset::LEN;
     let mut boundary = None;
 
-    while offset + Extension::LEN < account_data.len() {
+    while offset + Extension::LEN <= account_data.len() {
         let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
         match current.try_extension_type() {
+            Ok(ExtensionType::None) => break,
             Ok(t) if t == extension_type => {
                 boundary = Some(current.boundary() as usize);
                 break;
             }
-            Ok(ExtensionType::None) => break,
             _ => offset = current.boundary() as usize,
         }
     }
-- 
2.43.0


From c3ffd77842a02359a6d73f32f8c19f563f47d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:02 +0000
Subject: [PATCH 08/29] fix: move the boundaries of the extensions after a
 removed one

The data of the extensions after the removed one was moved, but their
boundaries still referred to the previous position.
---
 programs/asset/program/src/processor/remove.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 0d0e5a7..73326ee 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -136,5 +136,20 @@ pub fn process_remove(
         None,
     )?;
 
+    // updates the boundaries of any subsequent extensions
+
+    let mut account_data = ctx.accounts.asset.try_borrow_mut_data()?;
+
+    while offset + Extension::LEN <= account_data.len() {
+        let current = Extension::load_mut(&mut account_data[offset..offset + Extension::LEN]);
+
+        if matches!(current.try_extension_type(), Ok(ExtensionType::None)) {
+            break;
+        }
+
+        offset = (current.boundary() as usize).saturating_sub(bytes_to_remove);
+        current.set_boundary(offset as u32);
+    }
+
     Ok(())
 }
-- 
2.43.0


From b289ae5130d657f7e7a70eaac93004fa769065ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:02 +0000
Subject: [PATCH 09/29] fix: pad an extension completed by an overwrite

An extension whose last write was an overwrite missed the padding that an
append adds, and the asset could not be created from the buffer.
---
 programs/asset/program/src/processor/write.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index 7a9d870..8895e97 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -90,8 +90,14 @@ pub(crate) fn process_write(
         #[cfg(feature = "logging")]
         msg!("Overwriting extension data");
 
+        let mut extended = offset.saturating_add(data.bytes.len());
+
+        if extended == expected {
+            extended = boundary as usize;
+        }
+
         resize(
-            offset.saturating_add(data.bytes.len()),
+            extended,
             ctx.accounts.asset,
             Some(ctx.accounts.payer),
             Some(ctx.accounts.system_program),
-- 
2.43.0


From 2e15a91ac4d9d9856e94f0ec92b861e5aa1b64a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:02 +0000
Subject: [PATCH 10/29] fix: refuse to write beyond the length of an extension

Bytes after the declared length were stored behind the extension, where they
are taken for the header of a further one.
---
 programs/asset/program/src/processor/write.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index 8895e97..cf0ba4a 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -84,6 +84,16 @@ pub(crate) fn process_write(
         return err!(AssetError::InvalidAccountLength);
     }
 
+    // and the data must not exceed the length of the extension
+    let start = if data.overwrite {
+        offset
+    } else {
+        asset_data.len()
+    };
+    if start.saturating_add(data.bytes.len()) > expected {
+        return err!(AssetError::ExtensionLengthInvalid);
+    }
+
     drop(asset_data);
 
     let offset = if data.overwrite {
-- 
2.43.0


From e0e122d80026ff55a97b27f2769804b00ba9b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:19 +0000
Subject: [PATCH 11/29] fix: type of the mutable proxy extension

---
 programs/asset/types/src/extensions/proxy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/types/src/extensions/proxy.rs b/programs/asset/types/src/extensions/proxy.rs
index abef803..0c46abd 100644
--- a/programs/asset/types/src/extensions/proxy.rs
+++ b/programs/asset/types/src/extensions/proxy.rs
@@ -82,7 +82,7 @@ pub struct ProxyMut<'a> {
 }
 
 impl<'a> ExtensionDataMut<'a> for ProxyMut<'a> {
-    const TYPE: ExtensionType = ExtensionType::Manager;
+    const TYPE: ExtensionType = ExtensionType::Proxy;
 
     fn from_bytes_mut(bytes: &'a mut [u8]) -> Self {
         let (program, remainder) = bytes.split_at_mut(std::mem::size_of::<Pubkey>());
-- 
2.43.0


From 075a9740ce134880fb4b638989ddd20e37e74d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:19 +0000
Subject: [PATCH 12/29] fix: do not repeat the operator of a negated constraint

---
 programs/asset/types/src/constraints/not.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/programs/asset/types/src/constraints/not.rs b/programs/asset/types/src/constraints/not.rs
index 126546f..67f464a 100644
--- a/programs/asset/types/src/constraints/not.rs
+++ b/programs/asset/types/src/constraints/not.rs
@@ -30,7 +30,6 @@ impl Assertable for Not<'_> {
 
     fn as_bytes(&self) -> Vec<u8> {
         let mut bytes = Vec::with_capacity(self.constraint.size());
-        bytes.extend_from_slice(bytemuck::bytes_of(self.constraint.operator));
         bytes.extend_from_slice(self.constraint.as_bytes().as_ref());
         bytes
     }
-- 
2.43.0


From 469c2b1e636d97f1adb3b5a2dcf7874799bb2ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:19 +0000
Subject: [PATCH 13/29] fix: forward resize instructions

---
 programs/asset/interface/src/processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/asset/interface/src/processor.rs b/programs/asset/interface/src/processor.rs
index 386a8b6..5f84013 100644
--- a/programs/asset/interface/src/processor.rs
+++ b/programs/asset/interface/src/processor.rs
@@ -78,6 +78,7 @@ macro_rules! log_instruction_name {
             14 => "Ungroup",
             15 => "Handover",
             16 => "Remove",
+            17 => "Resize",
             _ => return Err(solana_program::program_error::ProgramError::InvalidInstructionData),
         };
 
-- 
2.43.0


From 180fc1da87a00d988b5c203827915f2633403d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:19 +0000
Subject: [PATCH 14/29] fix: do not let a proxied asset sign for another
 account of the instruction

---
 programs/asset/interface/src/processor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/asset/interface/src/processor.rs b/programs/asset/interface/src/processor.rs
index 5f84013..dfb35af 100644
--- a/programs/asset/interface/src/processor.rs
+++ b/programs/asset/interface/src/processor.rs
@@ -101,6 +101,11 @@ impl Interface {
         // drop the data before invoking the CPI
         drop(data);
 
+        // the signature of the asset must not stand for the one of any other account
+        if accounts[1..].iter().any(|account| account.key == asset.key) {
+            return Err(ProgramError::InvalidArgument);
+        }
+
         let mut account_metas = Vec::with_capacity(accounts.len());
         accounts.iter().for_each(|account| {
             account_metas.push(AccountMeta {
-- 
2.43.0


From 3f240bf1838ce95978eb8db10b141339b2a61505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:19 +0000
Subject: [PATCH 15/29] fix: forward the group on a transfer of a proxied asset

---
 programs/proxy/src/processor/transfer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/proxy/src/processor/transfer.rs b/programs/proxy/src/processor/transfer.rs
index e040b2f..ce98a58 100644
--- a/programs/proxy/src/processor/transfer.rs
+++ b/programs/proxy/src/processor/transfer.rs
@@ -115,5 +115,6 @@ pub fn process_transfer<'a>(
         .asset(ctx.accounts.asset)
         .signer(ctx.accounts.signer)
         .recipient(ctx.accounts.recipient)
+        .group(ctx.accounts.group)
         .invoke_signed(&[&signer])
 }
-- 
2.43.0


From 7ced592318e5f9177d74f16684bea7de9496a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:19 +0000
Subject: [PATCH 16/29] fix: require the signature of the signer of a proxied
 transfer

---
 programs/proxy/src/processor/transfer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/programs/proxy/src/processor/transfer.rs b/programs/proxy/src/processor/transfer.rs
index ce98a58..4074c05 100644
--- a/programs/proxy/src/processor/transfer.rs
+++ b/programs/proxy/src/processor/transfer.rs
@@ -12,13 +12,23 @@ use solana_program::{
     pubkey::Pubkey, sysvar::Sysvar,
 };
 
-use crate::processor::{CONTENT_TYPE, IMAGE};
+use crate::{
+    processor::{CONTENT_TYPE, IMAGE},
+    require,
+};
 
 pub fn process_transfer<'a>(
     _program_id: &Pubkey,
     ctx: nifty_asset_interface::accounts::Context<'a, TransferAccounts<'a>>,
 ) -> ProgramResult {
-    // account validation happends on the CPI
+    // account validation happends on the CPI, we only need to make sure that
+    // the signature is not the one of the asset
+
+    require!(
+        ctx.accounts.signer.is_signer,
+        ProgramError::MissingRequiredSignature,
+        "signer"
+    );
 
     let data = (*ctx.accounts.asset.data).borrow();
     fetch_proxy_data!(
-- 
2.43.0


From 661739f3de6a26b0fdd6dc61d7f8af4109480f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:19 +0000
Subject: [PATCH 17/29] fix: account for the data length of a write within the
 CPI limit

---
 clients/rust/asset/src/impls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clients/rust/asset/src/impls.rs b/clients/rust/asset/src/impls.rs
index f0b3e12..1c55017 100644
--- a/clients/rust/asset/src/impls.rs
+++ b/clients/rust/asset/src/impls.rs
@@ -211,8 +211,9 @@ macro_rules! allocate_and_write {
             let offset = total;
             // (1) discriminator
             // (1) overwrite
-            // total = 2
-            const WRITE_HEADER: usize = 2;
+            // (4) data length
+            // total = 6
+            const WRITE_HEADER: usize = 6;
             let data_len = std::cmp::min(total_data_len - offset, CPI_LIMIT - WRITE_HEADER - ACCOUNT_METAS_SIZE);
 
             instruction.data.push(12); // write discriminator
-- 
2.43.0


From 7006e4c304eaf1701927090c1ae4857542b94799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:22 +0000
Subject: [PATCH 18/29] fix: keep the operator of a reused constraint builder

---
 programs/asset/types/src/constraints/and.rs | 4 ++++
 programs/asset/types/src/constraints/or.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/programs/asset/types/src/constraints/and.rs b/programs/asset/types/src/constraints/and.rs
index a464422..a56b3a8 100644
--- a/programs/asset/types/src/constraints/and.rs
+++ b/programs/asset/types/src/constraints/and.rs
@@ -60,6 +60,10 @@ impl Default for AndBuilder {
 impl AndBuilder {
     /// Add a new constraint.
     pub fn add(&mut self, constraint: &mut dyn ConstraintBuilder) {
+        // building takes the buffer, including the space of the operator
+        if self.0.is_empty() {
+            self.0.resize(std::mem::size_of::<Operator>(), 0);
+        }
         self.0.extend_from_slice(constraint.build().as_ref());
     }
 }
diff --git a/programs/asset/types/src/constraints/or.rs b/programs/asset/types/src/constraints/or.rs
index 483054e..2456d08 100644
--- a/programs/asset/types/src/constraints/or.rs
+++ b/programs/asset/types/src/constraints/or.rs
@@ -63,6 +63,10 @@ impl Default for OrBuilder {
 impl OrBuilder {
     /// Add a new constraint.
     pub fn add(&mut self, constraint: &mut dyn ConstraintBuilder) {
+        // building takes the buffer, including the space of the operator
+        if self.0.is_empty() {
+            self.0.resize(std::mem::size_of::<Operator>(), 0);
+        }
         self.0.extend_from_slice(constraint.build().as_ref());
     }
 }
-- 
2.43.0


From d0ede99aa3749325c80a01f6dd52e71e68b63299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:22 +0000
Subject: [PATCH 19/29] fix: position of a creator added by a builder

---
 programs/asset/types/src/extensions/creators.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index 7ab7670..938f67c 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -159,9 +159,6 @@ impl ZeroCopy<'_, Creator> for Creator {}
 /// Builder for a `Creators` extension.
 #[derive(Default)]
 pub struct CreatorsBuilder {
-    /// The current number of creators.
-    count: u8,
-
     /// The extension data.
     data: Vec<u8>,
 }
@@ -169,16 +166,12 @@ pub struct CreatorsBuilder {
 impl CreatorsBuilder {
     pub fn with_capacity(capacity: usize) -> Self {
         Self {
-            count: 0,
             data: Vec::with_capacity(capacity),
         }
     }
 
     pub fn with_buffer(buffer: Vec<u8>) -> Self {
-        let mut s = Self {
-            count: 0,
-            data: buffer,
-        };
+        let mut s = Self { data: buffer };
         s.data.clear();
         s
     }
@@ -186,17 +179,15 @@ impl CreatorsBuilder {
     /// Add a new creator to the extension.
     pub fn add(&mut self, addresss: &Pubkey, verified: bool, share: u8) -> &mut Self {
         // extends the data buffer
+        let offset = self.data.len();
         self.data
             .append(&mut vec![0u8; std::mem::size_of::<Creator>()]);
-        let offset = self.count as usize * std::mem::size_of::<Creator>();
 
         let creator = Creator::load_mut(&mut self.data[offset..]);
         creator.address = *addresss;
         creator.verified = verified.into();
         creator.share = share;
 
-        self.count += 1;
-
         self
     }
 }
-- 
2.43.0


From 416fccda43cdd65f1a0fb8c46fb689a0d487474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:22 +0000
Subject: [PATCH 20/29] Revert "fix: account for the data length of a write
 within the CPI limit"

Not a defect: three account metas (102 bytes) and the 1178 bytes of the largest write are
exactly the 1280 bytes that the runtime accepts.
---
 clients/rust/asset/src/impls.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/clients/rust/asset/src/impls.rs b/clients/rust/asset/src/impls.rs
index 1c55017..f0b3e12 100644
--- a/clients/rust/asset/src/impls.rs
+++ b/clients/rust/asset/src/impls.rs
@@ -211,9 +211,8 @@ macro_rules! allocate_and_write {
             let offset = total;
             // (1) discriminator
             // (1) overwrite
-            // (4) data length
-            // total = 6
-            const WRITE_HEADER: usize = 6;
+            // total = 2
+            const WRITE_HEADER: usize = 2;
             let data_len = std::cmp::min(total_data_len - offset, CPI_LIMIT - WRITE_HEADER - ACCOUNT_METAS_SIZE);
 
             instruction.data.push(12); // write discriminator
-- 
2.43.0


From b7bd5a10b1fe7b062b72ca1a7170ac82b5982b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 21/29] fix: js client reads accounts with fewer spare bytes
 than an extension header

---
 clients/js/asset/src/hooked/internalAssetAccountData.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index bec5559..de955a9 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -29,6 +29,9 @@ export type InternalAssetAccountDataArgs = Omit<
   extensions: TypedExtension[];
 };
 
+/** Size of the header that precedes the data of an extension. */
+const EXTENSION_HEADER_SIZE = 16;
+
 export const getInternalAssetAccountDataSerializer = (): Serializer<
   InternalAssetAccountDataArgs,
   InternalAssetAccountData
@@ -56,7 +59,7 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
     const extensions: TypedExtension[] = [];
 
     // Extensions.
-    while (finalOffset < buffer.length) {
+    while (finalOffset + EXTENSION_HEADER_SIZE <= buffer.length) {
       const [header, headerOffset] = getExtensionHeaderSerializer().deserialize(
         buffer,
         finalOffset
-- 
2.43.0


From 7314c2c12024bbae97a910fd0e88dd8fbcd5e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 22/29] fix: js client writes the empty delegate role

---
 clients/js/asset/src/hooked/delegateRoles.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clients/js/asset/src/hooked/delegateRoles.ts b/clients/js/asset/src/hooked/delegateRoles.ts
index 3d5f4c5..9496ff3 100644
--- a/clients/js/asset/src/hooked/delegateRoles.ts
+++ b/clients/js/asset/src/hooked/delegateRoles.ts
@@ -17,7 +17,10 @@ export function getDelegateRolesSerializer(): Serializer<
   return mapSerializer(
     u8(),
     (delegateRoles) =>
-      delegateRoles.map((role) => 1 << (role - 1)).reduce((a, b) => a | b, 0),
+      delegateRoles
+        .filter((role) => role !== DelegateRole.None)
+        .map((role) => 1 << (role - 1))
+        .reduce((a, b) => a | b, 0),
     (rolesMask) => {
       if (rolesMask === 0) {
         return [DelegateRole.None];
-- 
2.43.0


From b92c9e25e8f4128f47bae16477c8173809ffea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:30 +0000
Subject: [PATCH 23/29] fix: js client reads metadata without image uri and
 without padding

---
 .../src/hooked/internalAssetAccountData.ts    | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index de955a9..890222f 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -32,6 +32,12 @@ export type InternalAssetAccountDataArgs = Omit<
 /** Size of the header that precedes the data of an extension. */
 const EXTENSION_HEADER_SIZE = 16;
 
+const padEnd = (data: Uint8Array, length: number): Uint8Array => {
+  const padded = new Uint8Array(Math.max(data.length, length));
+  padded.set(data);
+  return padded;
+};
+
 export const getInternalAssetAccountDataSerializer = (): Serializer<
   InternalAssetAccountDataArgs,
   InternalAssetAccountData
@@ -69,16 +75,15 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
       if (type === ExtensionType.None) {
         break;
       } else if (ExtensionType[type]) {
-        let endOffset = headerOffset + header.length;
+        let data = buffer.subarray(headerOffset, headerOffset + header.length);
         if (type === ExtensionType.Metadata) {
           // backwards compatibility for metadata extension: there is now an 'imageUrl'
-          // on the extension, so we use the extra padding to simulate having it for
-          // assets created before the change.
-          endOffset = header.boundary;
+          // on the extension, so we use an extra byte to simulate having it (empty)
+          // for assets created before the change.
+          data = padEnd(data, data.length + 1);
         }
-        const [extension] = getExtensionSerializerFromType(type).deserialize(
-          buffer.subarray(headerOffset, endOffset)
-        );
+        const [extension] =
+          getExtensionSerializerFromType(type).deserialize(data);
         extensions.push({ ...extension, type } as TypedExtension);
       }
 
-- 
2.43.0


From 61e75e010e10f1ce3bc5f3cdbb8a813e946bd5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:30 +0000
Subject: [PATCH 24/29] fix: js client reads groups without delegate

---
 clients/js/asset/src/hooked/internalAssetAccountData.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index 890222f..0bd4278 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -32,6 +32,9 @@ export type InternalAssetAccountDataArgs = Omit<
 /** Size of the header that precedes the data of an extension. */
 const EXTENSION_HEADER_SIZE = 16;
 
+/** Size of the grouping extension, including its delegate. */
+const GROUPING_SIZE = 48;
+
 const padEnd = (data: Uint8Array, length: number): Uint8Array => {
   const padded = new Uint8Array(Math.max(data.length, length));
   padded.set(data);
@@ -81,6 +84,10 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
           // on the extension, so we use an extra byte to simulate having it (empty)
           // for assets created before the change.
           data = padEnd(data, data.length + 1);
+        } else if (type === ExtensionType.Grouping) {
+          // backwards compatibility for grouping extension: there is now a 'delegate'
+          // on the extension, which is not set on groups created before the change.
+          data = padEnd(data, GROUPING_SIZE);
         }
         const [extension] =
           getExtensionSerializerFromType(type).deserialize(data);
-- 
2.43.0


From 8f8b7f7fa50680a9f57efa1dd706508071a12404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:18 +0000
Subject: [PATCH 25/29] fix: js client represents absent accounts of proxied
 instructions by the asset program

---
 clients/js/asset/src/burn.ts     | 20 +++-----------------
 clients/js/asset/src/proxied.ts  | 26 ++++++++++++++++++++++++++
 clients/js/asset/src/remove.ts   | 20 +++-----------------
 clients/js/asset/src/transfer.ts | 20 +++-----------------
 clients/js/asset/src/update.ts   | 21 ++++-----------------
 5 files changed, 39 insertions(+), 68 deletions(-)
 create mode 100644 clients/js/asset/src/proxied.ts

diff --git a/clients/js/asset/src/burn.ts b/clients/js/asset/src/burn.ts
index 553d280..e879a7d 100644
--- a/clients/js/asset/src/burn.ts
+++ b/clients/js/asset/src/burn.ts
@@ -3,31 +3,17 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   BurnInstructionAccounts,
   burn as baseBurn,
 } from './generated/instructions/burn';
+import { throughProxy } from './proxied';
 
 export function burn(
   context: Pick<Context, 'programs'>,
   input: BurnInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseBurn(context, input);
 
-  let ix = baseBurn(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/proxied.ts b/clients/js/asset/src/proxied.ts
new file mode 100644
index 0000000..7a4fc59
--- /dev/null
+++ b/clients/js/asset/src/proxied.ts
@@ -0,0 +1,26 @@
+import { PublicKey, TransactionBuilder } from '@metaplex-foundation/umi';
+import { ASSET_PROGRAM_ID } from './generated';
+
+/**
+ * Sends the instructions of a builder to a proxy program, which forwards them to
+ * the asset program.
+ *
+ * The accounts stay the ones of the asset program: in particular, the accounts that
+ * are not set keep being represented by the asset program address.
+ */
+export function throughProxy(
+  builder: TransactionBuilder,
+  proxy: PublicKey
+): TransactionBuilder {
+  return builder.mapInstructions((wrapped) => ({
+    ...wrapped,
+    instruction: {
+      ...wrapped.instruction,
+      programId: proxy,
+      keys: [
+        ...wrapped.instruction.keys,
+        { pubkey: ASSET_PROGRAM_ID, isWritable: false, isSigner: false },
+      ],
+    },
+  }));
+}
diff --git a/clients/js/asset/src/remove.ts b/clients/js/asset/src/remove.ts
index 0b3e2b4..93ff8f4 100644
--- a/clients/js/asset/src/remove.ts
+++ b/clients/js/asset/src/remove.ts
@@ -3,33 +3,19 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   RemoveInstructionAccounts,
   RemoveInstructionArgs,
   remove as baseRemove,
 } from './generated/instructions/remove';
+import { throughProxy } from './proxied';
 
 export function remove(
   context: Pick<Context, 'identity' | 'programs'>,
   input: RemoveInstructionAccounts &
     RemoveInstructionArgs & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseRemove(context, input);
 
-  let ix = baseRemove(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/transfer.ts b/clients/js/asset/src/transfer.ts
index c6098cd..bd665c7 100644
--- a/clients/js/asset/src/transfer.ts
+++ b/clients/js/asset/src/transfer.ts
@@ -7,27 +7,13 @@ import {
   transfer as baseTransfer,
   TransferInstructionAccounts,
 } from './generated/instructions/transfer';
-import { ASSET_PROGRAM_ID } from './generated';
+import { throughProxy } from './proxied';
 
 export function transfer(
   context: Pick<Context, 'identity' | 'programs'>,
   input: TransferInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseTransfer(context, input);
 
-  let ix = baseTransfer(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/update.ts b/clients/js/asset/src/update.ts
index 771f7c5..26eb061 100644
--- a/clients/js/asset/src/update.ts
+++ b/clients/js/asset/src/update.ts
@@ -6,12 +6,13 @@ import {
   none,
 } from '@metaplex-foundation/umi';
 import { TypedExtension, getExtensionSerializerFromType } from './extensions';
-import { ASSET_PROGRAM_ID, ExtensionInputArgs } from './generated';
+import { ExtensionInputArgs } from './generated';
 import {
   UpdateInstructionAccounts,
   UpdateInstructionArgs,
   update as baseUpdate,
 } from './generated/instructions/update';
+import { throughProxy } from './proxied';
 
 export function update(
   context: Pick<
@@ -36,24 +37,10 @@ export function update(
     };
   }
 
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
-
-  let ix = baseUpdate(context, {
+  const ix = baseUpdate(context, {
     ...input,
     extension,
   });
 
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
-- 
2.43.0


From eadb6966bb39cc43ef477279ea6926660d892cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:18 +0000
Subject: [PATCH 26/29] fix: js client sends the buffer instructions of a
 proxied update to the asset program

---
 clients/js/asset/src/updateWithBuffer.ts | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/clients/js/asset/src/updateWithBuffer.ts b/clients/js/asset/src/updateWithBuffer.ts
index d78ceee..3942e5e 100644
--- a/clients/js/asset/src/updateWithBuffer.ts
+++ b/clients/js/asset/src/updateWithBuffer.ts
@@ -6,7 +6,7 @@ import {
   none,
   transactionBuilderGroup,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID, SYSTEM_PROGRAM_ID, close } from '.';
+import { SYSTEM_PROGRAM_ID, close } from '.';
 import { TypedExtension, getExtensionSerializerFromType } from './extensions';
 import { allocate } from './generated/instructions/allocate';
 import {
@@ -14,6 +14,7 @@ import {
   UpdateInstructionArgs,
   update,
 } from './generated/instructions/update';
+import { throughProxy } from './proxied';
 import { DEFAULT_CHUNK_SIZE, write } from './write';
 
 export function updateWithBuffer(
@@ -32,12 +33,6 @@ export function updateWithBuffer(
   );
   const chunked = data.length > (input.chunkSize ?? DEFAULT_CHUNK_SIZE);
 
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
-
   if (chunked) {
     const buffer = generateSigner(context);
 
@@ -49,11 +44,7 @@ export function updateWithBuffer(
     });
 
     if (input.proxy) {
-      updateIx = updateIx.addRemainingAccounts({
-        pubkey: ASSET_PROGRAM_ID,
-        isWritable: false,
-        isSigner: false,
-      });
+      updateIx = throughProxy(updateIx, input.proxy);
     }
 
     return write(context, {
@@ -91,11 +82,7 @@ export function updateWithBuffer(
   });
 
   if (input.proxy) {
-    updateIx = updateIx.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
+    updateIx = throughProxy(updateIx, input.proxy);
   }
 
   return transactionBuilderGroup([updateIx]);
-- 
2.43.0


From 71f8359ebdc37b87f0831c3316a16fb437ed03dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:30 +0000
Subject: [PATCH 27/29] fix: js client pays for the buffer of an update with
 the payer of the context

---
 clients/js/asset/src/updateWithBuffer.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clients/js/asset/src/updateWithBuffer.ts b/clients/js/asset/src/updateWithBuffer.ts
index 3942e5e..3a5b1fb 100644
--- a/clients/js/asset/src/updateWithBuffer.ts
+++ b/clients/js/asset/src/updateWithBuffer.ts
@@ -35,9 +35,11 @@ export function updateWithBuffer(
 
   if (chunked) {
     const buffer = generateSigner(context);
+    const payer = input.payer ?? context.payer;
 
     let updateIx = update(context, {
       ...input,
+      payer,
       buffer: buffer.publicKey,
       systemProgram: SYSTEM_PROGRAM_ID,
       extension: none(),
@@ -49,12 +51,14 @@ export function updateWithBuffer(
 
     return write(context, {
       ...input,
+      payer,
       asset: buffer,
       data,
     })
       .prepend(
         allocate(context, {
           ...input,
+          payer,
           asset: buffer,
           extension: {
             extensionType: input.extension.type,
@@ -67,7 +71,7 @@ export function updateWithBuffer(
       .append(
         close(context, {
           buffer,
-          recipient: input.payer?.publicKey ?? context.payer.publicKey,
+          recipient: payer.publicKey,
         })
       );
   }
-- 
2.43.0


From b53548940d1541a319154f21699ba20293a78ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:18 +0000
Subject: [PATCH 28/29] fix: js client uses a buffer when the update does not
 fit a transaction

---
 clients/js/asset/src/updateWithBuffer.ts | 32 +++++++++++++-----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/clients/js/asset/src/updateWithBuffer.ts b/clients/js/asset/src/updateWithBuffer.ts
index 3a5b1fb..61c5023 100644
--- a/clients/js/asset/src/updateWithBuffer.ts
+++ b/clients/js/asset/src/updateWithBuffer.ts
@@ -31,7 +31,22 @@ export function updateWithBuffer(
   const data = getExtensionSerializerFromType(input.extension.type).serialize(
     input.extension
   );
-  const chunked = data.length > (input.chunkSize ?? DEFAULT_CHUNK_SIZE);
+  let directIx = update(context, {
+    ...input,
+    extension: {
+      extensionType: input.extension.type,
+      length: data.length,
+      data,
+    },
+  });
+
+  if (input.proxy) {
+    directIx = throughProxy(directIx, input.proxy);
+  }
+
+  const chunked =
+    data.length > (input.chunkSize ?? DEFAULT_CHUNK_SIZE) ||
+    !directIx.fitsInOneTransaction(context);
 
   if (chunked) {
     const buffer = generateSigner(context);
@@ -76,18 +91,5 @@ export function updateWithBuffer(
       );
   }
 
-  let updateIx = update(context, {
-    ...input,
-    extension: {
-      extensionType: input.extension.type,
-      length: data.length,
-      data,
-    },
-  });
-
-  if (input.proxy) {
-    updateIx = throughProxy(updateIx, input.proxy);
-  }
-
-  return transactionBuilderGroup([updateIx]);
+  return transactionBuilderGroup([directIx]);
 }
-- 
2.43.0


From b94b1b93993e70b7f983c18eddb3fd2dba000709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:51 +0000
Subject: [PATCH 29/29] fix: js client writes chunks that fit a transaction of
 another fee payer

---
 clients/js/asset/src/write.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clients/js/asset/src/write.ts b/clients/js/asset/src/write.ts
index 5e2df19..f78ae18 100644
--- a/clients/js/asset/src/write.ts
+++ b/clients/js/asset/src/write.ts
@@ -9,7 +9,7 @@ import {
 } from '@metaplex-foundation/umi';
 import { write as baseWrite } from './generated/instructions/write';
 
-export const DEFAULT_CHUNK_SIZE = 850;
+export const DEFAULT_CHUNK_SIZE = 800;
 
 export type WriteInstruction = {
   /** Address to derive the PDA from */
@@ -22,7 +22,7 @@ export type WriteInstruction = {
   data: Uint8Array;
   /**
    * The size of each chunk to write to the buffer.
-   * @default `850`
+   * @default `800`
    */
   chunkSize?: number;
 };
-- 
2.43.0

