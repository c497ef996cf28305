From 9c1db7b8ed03ab09656bea2fa7b1f8e527a36f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:13 +0000
Subject: [PATCH 1/3] fix: aucpace: refuse a neutral blinded salt in the
 fixed-buffer strong client

---
 aucpace/src/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aucpace/src/client.rs b/aucpace/src/client.rs
index 1ef7bfc..2bf3e81 100644
--- a/aucpace/src/client.rs
+++ b/aucpace/src/client.rs
@@ -670,7 +670,13 @@ where
         // I have interpreted this as the multiplicative inverse of (r * cj^2)
         // then multiplied by cj again.
         let exponent = (self.blinding_value * cofactor * cofactor).invert() * cofactor;
-        let salt = (blinded_salt * exponent).compress().to_bytes();
+
+        // check if the salt point is the neutral element
+        let salt_point = blinded_salt * exponent;
+        if salt_point.is_identity() {
+            return Err(Error::IllegalPointError);
+        }
+        let salt = salt_point.compress().to_bytes();
         let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;
 
         // compute the PRS
-- 
2.43.0


From c29a888c35b2f4fee807631fd524e290b3af84c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:13 +0000
Subject: [PATCH 2/3] fix: aucpace: give unknown users a salt of the same
 length as registered users

---
 aucpace/src/server.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aucpace/src/server.rs b/aucpace/src/server.rs
index 6e66b94..38543ea 100644
--- a/aucpace/src/server.rs
+++ b/aucpace/src/server.rs
@@ -13,7 +13,7 @@ use curve25519_dalek::{
     ristretto::RistrettoPoint,
     scalar::Scalar,
 };
-use password_hash::{ParamsString, SaltString};
+use password_hash::{ParamsString, Salt, SaltString};
 use rand_core::CryptoRngCore;
 use subtle::ConstantTimeEq;
 
@@ -457,10 +457,10 @@ where
         let hash = hasher.finalize();
         let hash_bytes: &[u8] = hash.as_ref();
 
-        // It is okay to expect here because SaltString has a buffer of 64 bytes by requirement
-        // from the PHC spec. 48 bytes of data when encoded as base64 transform to 64 bytes.
-        // This gives us the most entropy possible from the hash in the SaltString.
-        let salt = SaltString::encode_b64(&hash_bytes[..48])
+        // Use as many bytes as SaltString::generate puts into the salts of registered users,
+        // a salt of any other length would tell that the user does not exist.
+        // It is okay to expect here because this is well below the maximum length from the PHC spec.
+        let salt = SaltString::encode_b64(&hash_bytes[..Salt::RECOMMENDED_LENGTH])
             .expect("SaltString maximum length invariant broken");
 
         let message = ServerMessage::AugmentationInfo {
-- 
2.43.0


From c68ecc6bd4e7b792ffc41b1f857ab2045101a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:01 +0000
Subject: [PATCH 3/3] fix: aucpace: keep an unknown user's advertised long-term
 public key the same across queries

---
 aucpace/src/server.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/aucpace/src/server.rs b/aucpace/src/server.rs
index 38543ea..ae07919 100644
--- a/aucpace/src/server.rs
+++ b/aucpace/src/server.rs
@@ -262,9 +262,9 @@ where
             // generate the prs and client message
             self.generate_prs(user, database, &mut rng, x, x_pub)
         } else {
-            // if the user does not have a keypair stored then we generate a random point on the
-            // curve to be the public key, and handle the failed lookup as normal
-            let x_pub = RistrettoPoint::random(&mut rng);
+            // if the user does not have a keypair stored then we use a point derived from the
+            // user's name as the public key, and handle the failed lookup as normal
+            let x_pub = self.fake_long_term_public_key(user);
             self.lookup_failed(user, x_pub, &mut rng)
         };
         let next_step = AuCPaceServerCPaceSubstep::new(self.ssid, prs, rng);
@@ -357,9 +357,9 @@ where
             // generate the prs and client message
             self.generate_prs_strong(user, blinded, database, &mut rng, x, x_pub)?
         } else {
-            // if the user does not have a keypair stored then we generate a random point on the
-            // curve to be the public key, and handle the failed lookup as normal
-            let x_pub = RistrettoPoint::random(&mut rng);
+            // if the user does not have a keypair stored then we use a point derived from the
+            // user's name as the public key, and handle the failed lookup as normal
+            let x_pub = self.fake_long_term_public_key(user);
             self.lookup_failed_strong(user, blinded, x_pub, &mut rng)?
         };
         let next_step = AuCPaceServerCPaceSubstep::new(self.ssid, prs, rng);
@@ -434,6 +434,17 @@ where
         }
     }
 
+    /// Derive the public key advertised for a user without a long-term keypair from the server
+    /// secret and the user's name, so that it is the same each time, like that of a known user
+    #[cfg(feature = "partial_augmentation")]
+    fn fake_long_term_public_key(&self, username: &[u8]) -> RistrettoPoint {
+        let mut hasher: D = Default::default();
+        hasher.update(b"AuCPace unknown user long-term public key");
+        hasher.update(self.secret.0.to_le_bytes());
+        hasher.update(username);
+        RistrettoPoint::from_hash(hasher)
+    }
+
     /// Generate the message for if the lookup failed
     fn lookup_failed<CSPRNG>(
         &self,
-- 
2.43.0

