From 726cb9bb17b67134ea28a199f4a46b3d890061ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:34 +0000
Subject: [PATCH 01/12] fix: accept a delegate with the role even when the
 asset also has a manager

assert_delegate kept only the verdict of the last delegate in the list, so
the delegate approved by the owner was rejected on assets with a Manager
extension.
---
 programs/asset/program/src/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/asset/program/src/utils.rs b/programs/asset/program/src/utils.rs
index f726f1c..ca7db50 100644
--- a/programs/asset/program/src/utils.rs
+++ b/programs/asset/program/src/utils.rs
@@ -36,6 +36,11 @@ pub fn assert_delegate(
     delegates.iter().fold(
         Err(AssetError::DelegateNotFound.into()),
         |result, delegate| {
+            // any delegate that holds the role is sufficient
+            if result.is_ok() {
+                return result;
+            }
+
             if let Some(delegate) = delegate {
                 require!(
                     *delegate.address == *target,
-- 
2.43.0


From 363c7149bb49f45f584ac3b219fa819206ac273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:45 +0000
Subject: [PATCH 02/12] fix: do not let the total share of creators wrap around

---
 programs/asset/types/src/extensions/creators.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index c2b9c5a..236c85c 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -67,7 +67,7 @@ impl<'a> ExtensionDataMut<'a> for CreatorsMut<'a> {
 impl Lifecycle for CreatorsMut<'_> {
     /// Validates the creators' share added up to `100`.
     fn on_create(&mut self, authority: Option<&Pubkey>) -> Result<(), Error> {
-        let mut total = 0;
+        let mut total = 0u8;
 
         self.creators.iter_mut().for_each(|creator| {
             // creators are always initialized as unverified, unless it matches
@@ -77,7 +77,7 @@ impl Lifecycle for CreatorsMut<'_> {
             } else {
                 false.into()
             };
-            total += creator.share;
+            total = total.saturating_add(creator.share);
         });
 
         if total != TOTAL_SHARE {
@@ -88,7 +88,7 @@ impl Lifecycle for CreatorsMut<'_> {
     }
 
     fn on_update(&mut self, other: &mut Self, authority: Option<&Pubkey>) -> Result<(), Error> {
-        let mut total = 0;
+        let mut total = 0u8;
         other.creators.iter_mut().for_each(|creator| {
             if let Some(original) = self.get(&creator.address) {
                 // creators maintain their verified status
@@ -102,7 +102,7 @@ impl Lifecycle for CreatorsMut<'_> {
                     false.into()
                 };
             }
-            total += creator.share;
+            total = total.saturating_add(creator.share);
         });
 
         if total != 100 {
-- 
2.43.0


From a878e6cbdb3351909a795f2e283e1a1e22cea86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:00 +0000
Subject: [PATCH 03/12] fix: verify the authority as a creator only when it
 signs the creation

---
 programs/asset/program/src/processor/create.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/create.rs b/programs/asset/program/src/processor/create.rs
index 975e562..0e7bf52 100644
--- a/programs/asset/program/src/processor/create.rs
+++ b/programs/asset/program/src/processor/create.rs
@@ -189,7 +189,11 @@ pub fn process_create(
         on_create(
             extension.extension_type(),
             &mut current[..extension.length() as usize],
-            Some(ctx.accounts.authority.key()),
+            // an authority that does not sign does not verify anything
+            ctx.accounts
+                .authority
+                .is_signer()
+                .then(|| ctx.accounts.authority.key()),
         )
         .map_err(|error| {
             msg!("[ERROR] {}", error);
-- 
2.43.0


From b377a30201786c26c3bb09c10532c1efe323ce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:47 +0000
Subject: [PATCH 04/12] hook: entry points with decoded arguments, for
 cfg(kani) only

---
 programs/asset/program/src/processor/mod.rs | 46 +++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/programs/asset/program/src/processor/mod.rs b/programs/asset/program/src/processor/mod.rs
index fc8724f..d2d4c96 100644
--- a/programs/asset/program/src/processor/mod.rs
+++ b/programs/asset/program/src/processor/mod.rs
@@ -278,3 +278,49 @@ fn resize<'a>(
 
     Ok(())
 }
+
+/// Entry points of instructions with arguments, already decoded. A solver-based
+/// checker (`cfg(kani)`) follows the arguments better when they have not passed
+/// through the union that represents [`Instruction`].
+#[cfg(kani)]
+pub mod decoded {
+    use super::*;
+    use crate::instruction::{AllocateInput, DataInput, Strategy, UpdateInput};
+
+    pub fn allocate(
+        program_id: &Pubkey,
+        accounts: &[AccountInfo],
+        args: AllocateInput,
+    ) -> ProgramResult {
+        validate_access(program_id, accounts)?;
+        allocate::process_allocate(program_id, Allocate::context(accounts)?, args)
+    }
+
+    pub fn remove(
+        program_id: &Pubkey,
+        accounts: &[AccountInfo],
+        args: nifty_asset_types::extensions::ExtensionType,
+    ) -> ProgramResult {
+        validate_access(program_id, accounts)?;
+        remove::process_remove(program_id, Remove::context(accounts)?, args)
+    }
+
+    pub fn resize(program_id: &Pubkey, accounts: &[AccountInfo], args: Strategy) -> ProgramResult {
+        validate_access(program_id, accounts)?;
+        resize::process_resize(program_id, Resize::context(accounts)?, args)
+    }
+
+    pub fn update(
+        program_id: &Pubkey,
+        accounts: &[AccountInfo],
+        args: UpdateInput,
+    ) -> ProgramResult {
+        validate_access(program_id, accounts)?;
+        update::process_update(program_id, Update::context(accounts)?, args)
+    }
+
+    pub fn write(program_id: &Pubkey, accounts: &[AccountInfo], args: DataInput) -> ProgramResult {
+        validate_access(program_id, accounts)?;
+        write::process_write(program_id, Write::context(accounts)?, args)
+    }
+}
-- 
2.43.0


From 15204990c95a0cfa7e7af53a5d5930375878e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:42 +0000
Subject: [PATCH 05/12] fix: do not write beyond the declared length of an
 extension

---
 programs/asset/program/src/processor/write.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index 7a9d870..d58dfc9 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -86,6 +86,20 @@ pub(crate) fn process_write(
 
     drop(asset_data);
 
+    // the data written cannot go beyond the declared length of the extension
+    let start = if data.overwrite {
+        offset
+    } else {
+        ctx.accounts.asset.data_len()
+    };
+
+    require!(
+        start.saturating_add(data.bytes.len()) <= expected,
+        AssetError::ExtensionLengthInvalid,
+        "extension [{:?}] data is longer than its declared length",
+        current
+    );
+
     let offset = if data.overwrite {
         #[cfg(feature = "logging")]
         msg!("Overwriting extension data");
-- 
2.43.0


From 46e187b374158f15b50bd41e7704b1f54f9a7072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:29 +0000
Subject: [PATCH 06/12] fix: pad an extension completed by overwriting up to
 its boundary

---
 programs/asset/program/src/processor/write.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index d58dfc9..b380a96 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -78,9 +78,9 @@ pub(crate) fn process_write(
     let current = extension.extension_type();
     let expected = offset.saturating_add(extension.length() as usize);
     let boundary = extension.boundary();
-    // the length of the account cannot be larger than the current extension length,
+    // the length of the account cannot be larger than the current extension boundary,
     // otherwise we would be writting data to an extension that does not exist
-    if expected < asset_data.len() {
+    if (boundary as usize) < asset_data.len() {
         return err!(AssetError::InvalidAccountLength);
     }
 
@@ -104,8 +104,14 @@ pub(crate) fn process_write(
         #[cfg(feature = "logging")]
         msg!("Overwriting extension data");
 
+        let mut extended = offset.saturating_add(data.bytes.len());
+
+        if extended == expected {
+            extended = boundary as usize;
+        }
+
         resize(
-            offset.saturating_add(data.bytes.len()),
+            extended,
             ctx.accounts.asset,
             Some(ctx.accounts.payer),
             Some(ctx.accounts.system_program),
-- 
2.43.0


From 77d8819d7dcb087bb87f594999c1d09efe523c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:07 +0000
Subject: [PATCH 07/12] fix: update assets whose account has room behind the
 last extension

---
 programs/asset/program/src/processor/update.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index ca6ccd8..2ec50aa 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -158,7 +158,7 @@ pub fn process_update(
         //   - update flag (false when creating the extension)
         let mut extension = None;
 
-        while offset < account_data.len() {
+        while offset + Extension::LEN <= account_data.len() {
             let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
             match current.try_extension_type() {
@@ -346,8 +346,17 @@ pub fn process_update(
         // updates the boundaries of any subsequent extensions
         let mut cursor = updated_boundary;
 
-        while cursor < account_data.len() {
+        while cursor + Extension::LEN <= account_data.len() {
             let extension = Extension::load_mut(&mut account_data[cursor..cursor + Extension::LEN]);
+
+            // there might be additional space after the last extension
+            if matches!(
+                extension.try_extension_type(),
+                Ok(ExtensionType::None) | Err(_)
+            ) {
+                break;
+            }
+
             let boundary = extension.boundary().saturating_add_signed(delta);
             extension.set_boundary(boundary);
             cursor = boundary as usize;
-- 
2.43.0


From 9d843a2ee469122ffe7cbfa50b22de9f9faa98fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:36 +0000
Subject: [PATCH 08/12] fix: validate the extension data of an update buffer,
 not its header

---
 programs/asset/program/src/processor/update.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 2ec50aa..6adef62 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -202,10 +202,11 @@ pub fn process_update(
             drop(extension_data);
 
             let start = offset + Extension::LEN;
+            let buffer_start = Asset::LEN + Extension::LEN;
             // validate the extension data
             validate(
                 extension_type,
-                &mut buffer.try_borrow_mut_data()?[Asset::LEN..Asset::LEN + header_length],
+                &mut buffer.try_borrow_mut_data()?[buffer_start..buffer_start + header_length],
                 if update {
                     Some(&mut account_data[start..start + current_length])
                 } else {
-- 
2.43.0


From e04f7489221d393953f2b3060a82b0d7ee65c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:12 +0000
Subject: [PATCH 09/12] fix: validate an extension that is updated without data

---
 .../asset/program/src/processor/update.rs     | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 6adef62..c703d63 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -220,25 +220,22 @@ pub fn process_update(
 
             (header_length, None)
         } else if let Some(args) = args.extension {
-            let length = if let Some(mut extension_data) = args.data {
-                let start = offset + Extension::LEN;
-                // validate the extension data
-                validate(
-                    extension_type,
-                    extension_data.as_mut_slice(),
-                    if update {
-                        Some(&mut account_data[start..start + current_length])
-                    } else {
-                        None
-                    },
-                    ctx.accounts.authority.key(),
-                )?;
+            // an extension without any data is validated like any other
+            let mut extension_data = args.data.unwrap_or_default();
+            let start = offset + Extension::LEN;
+            // validate the extension data
+            validate(
+                extension_type,
+                extension_data.as_mut_slice(),
+                if update {
+                    Some(&mut account_data[start..start + current_length])
+                } else {
+                    None
+                },
+                ctx.accounts.authority.key(),
+            )?;
 
-                (extension_data.len(), Some(extension_data))
-            } else {
-                // extension does not have any data
-                (0, None)
-            };
+            let length = (extension_data.len(), Some(extension_data));
 
             #[cfg(feature = "logging")]
             msg!("Updating extension from instruction data");
-- 
2.43.0


From ada0673c6339a4e3bfeeb08d11612c248d8994e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 10/12] fix: update the boundaries of the extensions behind a
 removed one

---
 programs/asset/program/src/processor/remove.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 3cfbd62..d473ab9 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -136,5 +136,22 @@ pub fn process_remove(
         None,
     )?;
 
+    // updates the boundaries of the extensions that were moved
+
+    let mut account_data = ctx.accounts.asset.try_borrow_mut_data()?;
+
+    while offset + Extension::LEN <= account_data.len() {
+        let extension = Extension::load_mut(&mut account_data[offset..offset + Extension::LEN]);
+
+        match extension.try_extension_type() {
+            Ok(ExtensionType::None) | Err(_) => break,
+            _ => {
+                let boundary = extension.boundary().saturating_sub(bytes_to_remove as u32);
+                extension.set_boundary(boundary);
+                offset = boundary as usize;
+            }
+        }
+    }
+
     Ok(())
 }
-- 
2.43.0


From c072dced0980860655ac283afff174b50c4b5358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 11/12] fix: refuse to remove the space behind the last
 extension as an extension

---
 programs/asset/program/src/processor/remove.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index d473ab9..502cc64 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -89,7 +89,7 @@ pub fn process_remove(
     let boundary = boundary.ok_or(AssetError::ExtensionNotFound)?;
 
     match extension_type {
-        ExtensionType::Manager | ExtensionType::Proxy => {
+        ExtensionType::None | ExtensionType::Manager | ExtensionType::Proxy => {
             return err!(
                 AssetError::ExtensionDataInvalid,
                 "invalid extension type: {:?}",
-- 
2.43.0


From 51335359a8b1c56e54465c5275152ccaa8f00418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 12/12] fix: remove an extension without data at the end of an
 account

---
 programs/asset/program/src/processor/remove.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 502cc64..74764fa 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -71,7 +71,7 @@ pub fn process_remove(
     let mut offset = Asset::LEN;
     let mut boundary = None;
 
-    while offset + Extension::LEN < account_data.len() {
+    while offset + Extension::LEN <= account_data.len() {
         let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
         match current.try_extension_type() {
-- 
2.43.0

