From 28452bc247bdd924cb9da2424604ae4312834d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 01/11] fix: verify accepts the signatures which sign produces

XPrv::sign returns 65 bytes (r, s, recovery id) while XPub::verify refused
anything but 64.
---
 secp256k1_bip32/src/public.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/secp256k1_bip32/src/public.rs b/secp256k1_bip32/src/public.rs
index 2192c68..d9bab09 100644
--- a/secp256k1_bip32/src/public.rs
+++ b/secp256k1_bip32/src/public.rs
@@ -4,6 +4,8 @@ use cryptoxide::sha2::Sha256;
 use cryptoxide::sha3::Sha3;
 use secp256k1::{util, verify, Message, PublicKey, Signature};
 
+const SIGNATURE_WITH_RECOVERY_SIZE: usize = util::SIGNATURE_SIZE + 1;
+
 pub struct XPub(PublicKey);
 
 impl XPub {
@@ -20,9 +22,17 @@ impl XPub {
   }
 
   pub fn verify(&self, data: &[u8], signature: &[u8]) -> Result<bool, KeyError> {
-    if signature.len() != util::SIGNATURE_SIZE {
-      return Err(KeyError::InvalidSignature(signature.len(), util::SIGNATURE_SIZE));
-    }
+    // XPrv::sign appends the recovery id, which verification doesn't need
+    let signature = match signature.len() {
+      util::SIGNATURE_SIZE => signature,
+      SIGNATURE_WITH_RECOVERY_SIZE => {
+        if signature[util::SIGNATURE_SIZE] > 1 {
+          return Err(KeyError::InvalidRecoveryId);
+        }
+        &signature[0..util::SIGNATURE_SIZE]
+      }
+      len => return Err(KeyError::InvalidSignature(len, util::SIGNATURE_SIZE))
+    };
     let mut sha3 = Sha3::keccak256();
     sha3.input(data);
     let mut out = [0u8; util::MESSAGE_SIZE];
-- 
2.43.0


From c8af5b45692cc3c6488f6bd64a2eeeb05f60f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 02/11] fix: cardano key data longer than 96 bytes is an error,
 not a panic

---
 keychain/src/networks/cardano/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index c06be8d..3dae56c 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -48,7 +48,7 @@ pub struct Key {
 impl Key {
   pub fn from_data(data: &[u8]) -> Result<Self, Error> {
     let mut arr: [u8; XPRV_SIZE] = [0; XPRV_SIZE];
-    if data.len() < XPRV_SIZE {
+    if data.len() != XPRV_SIZE {
       return Err(Error::InvalidKeySize(data.len(), XPRV_SIZE));
     }
     arr.copy_from_slice(data);
-- 
2.43.0


From 7f588753e943f1bb70cc1d82bd36e4eae1b4be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 03/11] fix: cardano signature longer than 64 bytes is an
 error, not a panic

---
 keychain/src/networks/cardano/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index 3dae56c..ef840b4 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -126,7 +126,7 @@ impl IKey for Key {
 
   fn verify(&self, data: &[u8], signature: &[u8], path: &dyn KeyPath) -> Result<bool, Error> {
     let mut sign: [u8; SIGNATURE_SIZE] = [0; SIGNATURE_SIZE];
-    if signature.len() < SIGNATURE_SIZE {
+    if signature.len() != SIGNATURE_SIZE {
       return Err(Error::InvalidSignatureSize(signature.len(), SIGNATURE_SIZE));
     }
     sign.copy_from_slice(signature);
-- 
2.43.0


From 834c30b8d5a818ee24e4676b3f1506e5548874d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 04/11] fix: key path with a non ASCII part is an error, not a
 panic

---
 keychain/src/key_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index 5a9f8d5..eb7b6c7 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -85,7 +85,7 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    if &s[s.len() - 1..] == "'" {
+    if s.ends_with("'") {
       Self::hard_int(index, s)
     } else {
       Self::soft_int(index, s)
-- 
2.43.0


From a0a171ff6661617d82d58f21296e61f64d718a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 05/11] fix: hardened key path number above 2^31-1 is an error,
 not an overflow

---
 keychain/src/key_path.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index eb7b6c7..3c11b79 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -19,7 +19,8 @@ pub enum Error {
   InvalidChange(u32),
   InvalidAddress(u32),
   EmptyValueAtIndex(usize),
-  ParseErrorAtIndex(usize, std::num::ParseIntError)
+  ParseErrorAtIndex(usize, std::num::ParseIntError),
+  HardenedValueTooBigAtIndex(usize, u32)
 }
 
 impl fmt::Display for Error {
@@ -44,6 +45,9 @@ impl fmt::Display for Error {
       &Error::ParseErrorAtIndex(index, ref err) => {
         write!(f, "Can't parse number at index {}, error: {}", index, err)
       }
+      &Error::HardenedValueTooBigAtIndex(index, val) => {
+        write!(f, "Hardened value {} at index {} is too big", val, index)
+      }
     }
   }
 }
@@ -71,7 +75,11 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    Self::soft_int(index, &s[..s.len() - 1]).map(|val| val + BIP44_SOFT_UPPER_BOUND)
+    let val = Self::soft_int(index, &s[..s.len() - 1])?;
+    if val >= BIP44_SOFT_UPPER_BOUND {
+      return Err(Error::HardenedValueTooBigAtIndex(index, val));
+    }
+    Ok(val + BIP44_SOFT_UPPER_BOUND)
   }
 
   fn soft_int(index: usize, s: &str) -> Result<u32, Error> {
-- 
2.43.0


From 323b43a78e5d3bc54e58df24c370c0c41add5b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 06/11] fix: invalid address error of a key path names the
 address

---
 keychain/src/networks/bitcoin/key_path.rs | 2 +-
 keychain/src/networks/cardano/key_path.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/bitcoin/key_path.rs b/keychain/src/networks/bitcoin/key_path.rs
index da77a71..20e4b9d 100644
--- a/keychain/src/networks/bitcoin/key_path.rs
+++ b/keychain/src/networks/bitcoin/key_path.rs
@@ -40,7 +40,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(())
   }
diff --git a/keychain/src/networks/cardano/key_path.rs b/keychain/src/networks/cardano/key_path.rs
index 6bae86a..7cd2d8c 100644
--- a/keychain/src/networks/cardano/key_path.rs
+++ b/keychain/src/networks/cardano/key_path.rs
@@ -19,7 +19,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(KeyPath { account: account + BIP44_SOFT_UPPER_BOUND, change, address })
   }
-- 
2.43.0


From d3a6188ae49adee63b06ec6769c847bb687453eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 07/11] fix: an unusable child at the last soft index is not
 replaced by a hardened one

---
 secp256k1_bip32/src/private.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secp256k1_bip32/src/private.rs b/secp256k1_bip32/src/private.rs
index 226c445..81b40cd 100644
--- a/secp256k1_bip32/src/private.rs
+++ b/secp256k1_bip32/src/private.rs
@@ -201,7 +201,7 @@ impl XPrv {
     let mut newpk = self.key.clone();
 
     if newpk.tweak_add_assign(&tweak_pk).is_err() {
-      if (hardened && index < std::u32::MAX) || (!hardened && index < BIP44_SOFT_UPPER_BOUND) {
+      if (hardened && index < std::u32::MAX) || (!hardened && index < BIP44_SOFT_UPPER_BOUND - 1) {
         return self.derive(index + 1);
       } else {
         return Err(KeyError::TweakOutOfRange);
-- 
2.43.0


From 487ae77ba779a470145aa45314e7fad051e24688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 08/11] fix: networks list is freed with the layout it was
 allocated with

---
 keychain-c/src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain-c/src/network.rs b/keychain-c/src/network.rs
index ab30ccc..97f3585 100644
--- a/keychain-c/src/network.rs
+++ b/keychain-c/src/network.rs
@@ -33,7 +33,7 @@ impl Ptr<[Network]> for NetworksPtr {
     if self.ptr.is_null() {
       return;
     }
-    let _ = Vec::from_raw_parts(self.ptr as *mut &[Network], self.count, self.count);
+    let _ = Vec::from_raw_parts(self.ptr as *mut Network, self.count, self.count);
     self.ptr = std::ptr::null();
   }
 }
-- 
2.43.0


From 3623b4d98f6e564366573b491d5fb1104b1ca900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 09/11] fix: dictionary lookup of an index out of bounds is an
 error

---
 bip39/src/bip39.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index c5568f2..dafa355 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -921,7 +921,10 @@ pub mod dictionary {
       }
     }
     fn lookup_word(&self, mnemonic: MnemonicIndex) -> Result<String> {
-      Ok(unsafe { self.words.get_unchecked(mnemonic.0 as usize) }).map(|s| String::from(*s))
+      match self.words.get(mnemonic.0 as usize) {
+        None => Err(Error::MnemonicWordNotFoundInDictionary(mnemonic.0.to_string())),
+        Some(s) => Ok(String::from(*s))
+      }
     }
   }
 
-- 
2.43.0


From aaca180885a4cd1d1df396f5fe9222c8d94f0b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 10/11] fix: an encrypted empty message can be decrypted

---
 keychain/src/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/crypt.rs b/keychain/src/crypt.rs
index 1a3b964..65980b6 100644
--- a/keychain/src/crypt.rs
+++ b/keychain/src/crypt.rs
@@ -72,7 +72,7 @@ pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
 pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
   use self::password_encryption_parameter::*;
 
-  if data.len() <= METADATA_SIZE {
+  if data.len() < METADATA_SIZE {
     // not enough input to decrypt.
     return Err(DecryptError::NotEnoughData);
   }
-- 
2.43.0


From 910eb9a9f660ffd0b5f709b0ef04801881c08c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 11/11] fix: replace NUL characters in error messages of the C
 interface instead of panicking

---
 keychain-c/src/error.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keychain-c/src/error.rs b/keychain-c/src/error.rs
index 85c1b4b..06e5492 100644
--- a/keychain-c/src/error.rs
+++ b/keychain-c/src/error.rs
@@ -40,6 +40,11 @@ impl Ptr<str> for ErrorPtr {
   }
 }
 
+// Messages can quote input, and a C string can't hold NUL characters.
+fn message_cstr(msg: &str) -> CharPtr {
+  msg.replace('\0', "\u{fffd}").to_cstr()
+}
+
 impl ErrorPtr {
   fn error_type(err: &RError) -> ErrorType {
     match err {
@@ -59,11 +64,11 @@ impl ErrorPtr {
   }
 
   pub fn new(err: &RError) -> Self {
-    Self { error_type: Self::error_type(err), message: format!("{}", err).to_cstr() }
+    Self { error_type: Self::error_type(err), message: message_cstr(&format!("{}", err)) }
   }
 
   pub fn panic(msg: &str) -> Self {
-    Self { error_type: ErrorType::Panic, message: msg.to_cstr() }
+    Self { error_type: ErrorType::Panic, message: message_cstr(msg) }
   }
 }
 
-- 
2.43.0

