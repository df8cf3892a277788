From 801b896d1eba16e601e050cab3e6e118fe442637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH] fix: never derive a slow limit of zero

With a PRECHECK_LIMIT below 10, the derived SLOW_LIMIT was zero, so the slow phase was never
entered and comparing cyclic graphs never terminated.
---
 src/cycle_safe.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cycle_safe.rs b/src/cycle_safe.rs
index 3a9bf25..88c93a9 100644
--- a/src/cycle_safe.rs
+++ b/src/cycle_safe.rs
@@ -138,8 +138,14 @@ pub mod modes
             const FAST_LIMIT_MAX: u16 = 2 * Self::PRECHECK_LIMIT;
             /// How many nodes, consecutively, that have not already been seen, are traversed by
             /// the "slow" phase before switching to the "fast" phase.
+            ///
+            /// The derived default is never zero, because without any "slow" phase cycles would
+            /// never be noticed.
             #[allow(clippy::integer_division)]
-            const SLOW_LIMIT: u16 = Self::PRECHECK_LIMIT / 10;
+            const SLOW_LIMIT: u16 = match Self::PRECHECK_LIMIT / 10 {
+                0 => 1,
+                limit => limit,
+            };
 
             /// Type of node that is recorded as equivalent in the [`Self::Table`].  Must be the
             /// same as used with the corresponding [`equiv::Params`].
-- 
2.43.0

