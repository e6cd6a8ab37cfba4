From 65a5fe50fb3c9e1ab363ccbc7a5ba59e79e6782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:46 +0000
Subject: [PATCH 1/2] fix: refuse a neutral salt point in the fixed-buffer
 strong AuCPace login

The heap variant already returns IllegalPointError when the unblinded salt
point is the neutral element; the fixed-buffer variant continued with it.
---
 aucpace/src/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aucpace/src/client.rs b/aucpace/src/client.rs
index 1ef7bfc..2bf3e81 100644
--- a/aucpace/src/client.rs
+++ b/aucpace/src/client.rs
@@ -670,7 +670,13 @@ where
         // I have interpreted this as the multiplicative inverse of (r * cj^2)
         // then multiplied by cj again.
         let exponent = (self.blinding_value * cofactor * cofactor).invert() * cofactor;
-        let salt = (blinded_salt * exponent).compress().to_bytes();
+
+        // check if the salt point is the neutral element
+        let salt_point = blinded_salt * exponent;
+        if salt_point.is_identity() {
+            return Err(Error::IllegalPointError);
+        }
+        let salt = salt_point.compress().to_bytes();
         let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;
 
         // compute the PRS
-- 
2.43.0


From 6e315dde6c211479c6216b973480b9473e3231cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:46 +0000
Subject: [PATCH 2/2] fix: print each byte of a non-UTF-8 SPAKE2 identity as
 two hex digits

Without padding, distinct identities could print as the same text.
---
 spake2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spake2/src/lib.rs b/spake2/src/lib.rs
index b1d8715..fb17952 100644
--- a/spake2/src/lib.rs
+++ b/spake2/src/lib.rs
@@ -569,7 +569,7 @@ impl fmt::Debug for MaybeUtf8<'_> {
             write!(fmt, "(hex=")?;
 
             for byte in self.0 {
-                write!(fmt, "{byte:x}")?;
+                write!(fmt, "{byte:02x}")?;
             }
 
             write!(fmt, ")")
-- 
2.43.0

