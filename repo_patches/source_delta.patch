From e46390ffb44b352826b13ddd6a9b6d3665d7c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 1/4] fix: compare the other key's bytes in
 ExtendedPrivateKey::ct_eq

---
 src/bip32/extended_key/extended_private_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bip32/extended_key/extended_private_key.rs b/src/bip32/extended_key/extended_private_key.rs
index 14e9dc5..80554d3 100644
--- a/src/bip32/extended_key/extended_private_key.rs
+++ b/src/bip32/extended_key/extended_private_key.rs
@@ -181,7 +181,7 @@ where
 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let mut key_a = self.to_bytes();
-        let mut key_b = self.to_bytes();
+        let mut key_b = other.to_bytes();
 
         let result = key_a.ct_eq(&key_b)
             & self.attrs.depth.ct_eq(&other.attrs.depth)
-- 
2.43.0


From d8d55132381f2147cd99814f2cca9958ee59b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:27 +0000
Subject: [PATCH 2/4] fix: return an error instead of panicking on an
 out-of-range child tweak

---
 src/bip32/private_key.rs | 3 ++-
 src/bip32/public_key.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bip32/private_key.rs b/src/bip32/private_key.rs
index e012792..b022369 100644
--- a/src/bip32/private_key.rs
+++ b/src/bip32/private_key.rs
@@ -45,7 +45,8 @@ impl PrivateKey for libsecp256k1::SecretKey {
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()) {
+        let tweak = libsecp256k1::SecretKey::parse(&other).map_err(|_| Error::Crypto)?;
+        match cpk.tweak_add_assign(&tweak) {
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
diff --git a/src/bip32/public_key.rs b/src/bip32/public_key.rs
index 80c6163..b7ba974 100644
--- a/src/bip32/public_key.rs
+++ b/src/bip32/public_key.rs
@@ -48,7 +48,8 @@ impl PublicKey for libsecp256k1::PublicKey {
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()){
+        let tweak = libsecp256k1::SecretKey::parse(&other).map_err(|_| Error::Crypto)?;
+        match cpk.tweak_add_assign(&tweak) {
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
-- 
2.43.0


From 9f7d4753294ed4c5c97a1a1c9a0d2122d5f1de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:28 +0000
Subject: [PATCH 3/4] fix: find words by prefix in word lists that are not
 sorted

---
 src/bip39/language.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bip39/language.rs b/src/bip39/language.rs
index 6e49c99..f0ec64c 100644
--- a/src/bip39/language.rs
+++ b/src/bip39/language.rs
@@ -27,8 +27,9 @@ impl WordList {
 
     pub fn get_words_by_prefix(&self, prefix: &str) -> &[&'static str] {
         let start = self.inner
-            .binary_search(&prefix)
-            .unwrap_or_else(|idx| idx);
+            .iter()
+            .position(|word| word.starts_with(prefix))
+            .unwrap_or(self.inner.len());
         let count = self.inner[start..].iter()
             .take_while(|word| word.starts_with(prefix))
             .count();
-- 
2.43.0


From 72e08f0a59d25ebf46aacd265650914bcc4c846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:14 +0000
Subject: [PATCH 4/4] fix: reject depth-zero extended keys with a parent
 fingerprint or child number

---
 src/bip32/extended_key/attrs.rs                | 8 ++++++++
 src/bip32/extended_key/extended_private_key.rs | 4 ++++
 src/bip32/extended_key/extended_public_key.rs  | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/src/bip32/extended_key/attrs.rs b/src/bip32/extended_key/attrs.rs
index 0bd2a16..d44f4b5 100644
--- a/src/bip32/extended_key/attrs.rs
+++ b/src/bip32/extended_key/attrs.rs
@@ -18,3 +18,11 @@ pub struct ExtendedKeyAttrs {
     /// Chain code.
     pub chain_code: ChainCode,
 }
+
+impl ExtendedKeyAttrs {
+    /// A key at depth zero is a master key: BIP32 makes it invalid unless its
+    /// parent fingerprint and its child number are zero too.
+    pub(crate) fn is_consistent(&self) -> bool {
+        self.depth != 0 || (self.parent_fingerprint == [0u8; 4] && self.child_number.0 == 0)
+    }
+}
diff --git a/src/bip32/extended_key/extended_private_key.rs b/src/bip32/extended_key/extended_private_key.rs
index 80554d3..cd1c176 100644
--- a/src/bip32/extended_key/extended_private_key.rs
+++ b/src/bip32/extended_key/extended_private_key.rs
@@ -243,6 +243,10 @@ where
     type Error = Error;
 
     fn try_from(extended_key: ExtendedKey) -> Result<ExtendedPrivateKey<K>> {
+        if !extended_key.attrs.is_consistent() {
+            return Err(Error::Decode);
+        }
+
         if extended_key.prefix.is_private() && extended_key.key_bytes[0] == 0 {
             Ok(ExtendedPrivateKey {
                 private_key: PrivateKey::from_bytes(extended_key.key_bytes[1..].try_into()?)?,
diff --git a/src/bip32/extended_key/extended_public_key.rs b/src/bip32/extended_key/extended_public_key.rs
index 27db0fe..643ad06 100644
--- a/src/bip32/extended_key/extended_public_key.rs
+++ b/src/bip32/extended_key/extended_public_key.rs
@@ -139,6 +139,10 @@ where
     type Error = Error;
 
     fn try_from(extended_key: ExtendedKey) -> Result<ExtendedPublicKey<K>> {
+        if !extended_key.attrs.is_consistent() {
+            return Err(Error::Decode);
+        }
+
         if extended_key.prefix.is_public() {
             Ok(ExtendedPublicKey {
                 public_key: PublicKey::from_bytes(extended_key.key_bytes)?,
-- 
2.43.0

