From c2886f44356ba3a5e378d16bfff84205a3a7681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH] fix: represent an identity rk in the public inputs instead of
 panicking

---
 src/circuit.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 567b606..588fc99 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -13,7 +13,10 @@ use halo2_proofs::{
     transcript::{Blake2bRead, Blake2bWrite},
 };
 use memuse::DynamicUsage;
-use pasta_curves::{arithmetic::CurveAffine, pallas, vesta};
+use pasta_curves::{
+    arithmetic::{Coordinates, CurveAffine},
+    pallas, vesta,
+};
 use rand::RngCore;
 
 use self::{
@@ -843,11 +846,13 @@ impl Instance {
         let rk = pallas::Point::from_bytes(&self.rk.clone().into())
             .unwrap()
             .to_affine()
-            .coordinates()
-            .unwrap();
+            .coordinates();
 
-        instance[RK_X] = *rk.x();
-        instance[RK_Y] = *rk.y();
+        // The identity has no affine coordinates; the circuit represents it as (0, 0).
+        if let Some(rk) = Option::<Coordinates<_>>::from(rk) {
+            instance[RK_X] = *rk.x();
+            instance[RK_Y] = *rk.y();
+        }
         instance[CMX] = self.cmx.inner();
         instance[ENABLE_SPEND] = vesta::Scalar::from(u64::from(self.enable_spend));
         instance[ENABLE_OUTPUT] = vesta::Scalar::from(u64::from(self.enable_output));
-- 
2.43.0

